// Logical datasets and an independent .sas7bdat writer.
#pragma once
#include "engine.hpp"
#include <cstdint>
#include <string>
#include <vector>

namespace model {
using eng::Ctx;
using eng::Src;

enum class Ty { Str, Num, Int1, Int2, DateTime, Date, Time };
enum class Comp { None, RLE, RDC };
const char *ty_name(Ty);

struct Col {
  std::string name, label, format;
  Ty ty{Ty::Num};
  size_t width{8};
  size_t offset{0};
  bool numeric() const { return ty != Ty::Str; }
};
struct Cell {
  std::string str;   // stored bytes of a character cell (exactly width bytes)
  uint64_t bits{0};  // IEEE pattern of a numeric cell (low bytes zero when the stored width is < 8)
  int32_t i{0};      // 1- and 2-byte integers
};
using Row = std::vector<Cell>;

struct HeaderModel {
  char platform{'1'};
  unsigned char encoding{20};
  std::string dataset_name{"D"}, file_type{"DATA"}, release{"9.0401M1"}, server_type{"Linux"}, os_type{"x"}, os_maker, os_name{"L"};
  double created{0}, modified{0};
};
struct Dataset {
  bool big{false}, w64{false}, a1{false};
  HeaderModel h;
  Comp comp{Comp::None};
  std::vector<Col> cols;
  size_t row_length{0};
  std::vector<Row> rows;
  std::vector<std::string> raw_rows; // encoded rows (row_length bytes each), kept in step with rows
  size_t isz() const { return w64 ? 8 : 4; }
};

// How general datasets are drawn
struct DsOpts {
  size_t max_cols{12};
  size_t max_rows{30};
  bool temporal_nice{true};  // temporal cells: finite, in range (0..1 day for times) or missing
  bool with_comp{true};
  bool unique_names{true};
  bool ascii_text{false};    // character cells: printable ASCII only
  bool simple_names{false};  // [A-Za-z_][A-Za-z0-9_]*
  bool wide_names{false};    // names and labels may hold any printable text, also UTF-8
  int force_comp{-1};
  bool allow_zero_cols{false};
  size_t max_str{40};
  bool long_text{false};     // half of the character columns have more than 255 bytes
  bool rich_header{false};   // always a random header
};
Dataset gen_dataset(Src &s, const DsOpts &o = {});
void gen_schema(Src &s, Dataset &d, const DsOpts &o);
Cell gen_cell(Src &s, const Col &c, const DsOpts &o);
void gen_header(Src &s, HeaderModel &h, bool wide = false);
std::string encode_row(const Dataset &d, const Row &r, const std::string &filler);
void layout_columns(Src &s, Dataset &d);
std::string describe(const Dataset &d);
std::string gen_sas_name(Src &s, size_t i);
std::string gen_format(Src &s, Ty ty);

// Temporal oracle
constexpr int64_t NAT = INT64_MIN;
// nearest microsecond since 1960-01-01 of `sec`; ambiguous near ties; NAT when missing/out of calendar
struct Instant {
  int64_t us{NAT};
  int64_t alt{NAT}; // second acceptable answer
};
Instant expect_datetime(double sec);
struct Day {
  int64_t day{NAT}, alt{NAT};
};
Day expect_date(double days);
Instant expect_time(double sec); // modulo one day
extern const int64_t MIN_US, MAX_US, MIN_DAY, MAX_DAY;
void civil(int64_t days, int &y, unsigned &m, unsigned &d); // days since 1960-01-01
int64_t days_from_civil(int y, unsigned m, unsigned d);

// Physical file
struct PageInfo {
  size_t begin, end;    // bytes
  size_t rows_before;   // rows stored before this page
  size_t rows;          // rows stored on it
  bool metadata;        // holds (part of) the metadata
  std::string kind;
};
struct File {
  std::string bytes;
  size_t header_length{0}, page_length{0}, page_count{0}, header_page_count{0};
  std::vector<PageInfo> pages;
  // expected metadata
  size_t col_count_p1{0}, col_count_p2{0}, mix_page_row_count{0}, lcs{0}, lcp{0};
  std::string creator, creator_proc;
  size_t metadata_end{0};      // end of the last page holding metadata
  size_t first_data_page_end{0};
  std::vector<std::string> labels;
};
struct WriteOpts {
  bool canonical{false};      // one simple layout
  bool force_compressed_rows{false};
  bool no_tail{false};        // nothing after the last row's page
  const std::vector<std::string> *streams{nullptr}; // pre-made compressed streams, one per row ("" = raw)
  size_t force_header_length{0};
  double header_page_count{-1};
  bool small_pages{false};    // few rows per page
  size_t empty_pages{0};      // about as many pages without rows between those with rows
  bool scale{false};          // also pages and headers beyond 64 kB, many or long text blocks
  bool early_stop{true};      // allowed: rows of the file beyond row_count etc.
};
// `n` rows picked from those of `d` (by a drawn seed); their compressed streams, one per row of the result
std::vector<std::string> multiply_rows(Src &s, Dataset &d, size_t n);
File write_file(const Dataset &d, Src &s, const WriteOpts &o = {});

// Compression: random encoders of a row, and random streams with their expansion
std::string rle_encode(Src &s, const std::string &row);
std::string rdc_encode(Src &s, const std::string &row);
struct Stream {
  std::string stream, expansion; // expansion.size()==row_length
  std::string pinned;            // RDC: what the recorded defect C04-rdc-tail makes of it
  std::vector<std::string> ops;
  bool one_byte_tail{false}, overlap{false}, padded{false};
};
Stream rle_stream(Src &s, size_t row_length);
Stream rdc_stream(Src &s, size_t row_length);
std::string rdc_pinned(const std::string &stream, size_t row_length);

bool looks_like_signature(const std::string &b, size_t isz);
const char *encoding_name(unsigned char e);
const std::vector<std::string> &formats_of(Ty t);

} // namespace model
