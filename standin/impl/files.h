// Simulated columnar files (stands in for Apache Parquet and Arrow): what readers see is what writers closed.
#pragma once
#include <jogasaki/meta/field_type_kind.h>
#include <map>
#include <string>
#include <vector>
namespace simfiles {
using kind = jogasaki::meta::field_type_kind;
struct Cell { bool null{}; long long i{}; int x{}; int sign{}; unsigned long long hi{}; double d{}; std::string s; };   // decimal: sign, hi, i = low, x = exponent; time point: i seconds, x nanoseconds
struct Column { std::string name; kind k{}; };
struct File { std::vector<Column> cols; std::vector<std::vector<std::vector<Cell>>> groups; bool complete{}; int readers{}, opened{}; int generation{}; };
extern std::map<std::string, File> files;
struct Counters { int open_readers{}, open_writers{}, written{}, failed_open{}, failed_write{}, failed_close{}; };
extern Counters count;
extern unsigned long long arrow_batch;   // records per batch when the option leaves it open
void put(std::string const& path, File f);   // also creates the file on disk
bool usable(std::string const& path);        // complete, and still on disk
}
