// A stand-in for the parts of laz-perf 3.0 that copc-lib uses.  laz-perf itself is not available in this sandbox
// (no network), so copc-lib's file code could not be compiled at all without it.  The binary layout of the LAS header,
// VLR/EVLR headers, extra-bytes, WKT, LAZ and COPC info records is the real one; the point codec is not LASzip but a
// self-checking one of the same shape (whole-chunk layers after a raw first point, variable size, read-ahead input).
#ifndef VERIF_STANDIN_LAZPERF_HPP
#define VERIF_STANDIN_LAZPERF_HPP
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <functional>
#include <iosfwd>
#include <istream>
#include <memory>
#include <ostream>
#include <stdexcept>
#include <string>
#include <vector>

namespace lazperf
{
struct error : public std::runtime_error
{
    using std::runtime_error::runtime_error;
};

using OutputCb = std::function<void(const unsigned char *, size_t)>;
using InputCb = std::function<void(unsigned char *, size_t)>;

// ---------------------------------------------------------------- header
struct vector3
{
    double x{0}, y{0}, z{0};
};

struct header12
{
    static const int Size = 227;
    char magic[4]{'L', 'A', 'S', 'F'};
    uint16_t file_source_id{0};
    uint16_t global_encoding{0};
    char guid[16]{};
    struct
    {
        uint8_t major{1};
        uint8_t minor{2};
    } version;
    char system_identifier[32]{};
    char generating_software[32]{};
    struct
    {
        uint16_t day{0};
        uint16_t year{0};
    } creation;
    uint16_t header_size{Size};
    uint32_t point_offset{0};
    uint32_t vlr_count{0};
    uint8_t point_format_id{0};
    uint16_t point_record_length{0};
    uint32_t point_count{0};
    uint32_t points_by_return[5]{};
    vector3 scale;
    vector3 offset;
    double maxx{0}, minx{0}, maxy{0}, miny{0}, maxz{0}, minz{0};

    void read(std::istream &in);
    void write(std::ostream &out) const;
    int pointFormat() const { return point_format_id & 0x3f; }
    int ebCount() const;
};
struct header13 : public header12
{
    static const int Size = 235;
    uint64_t wave_offset{0};
    void read(std::istream &in);
    void write(std::ostream &out) const;
};
struct header14 : public header13
{
    static const int Size = 375;
    uint64_t evlr_offset{0};
    uint32_t evlr_count{0};
    uint64_t point_count_14{0};
    uint64_t points_by_return_14[15]{};
    header14()
    {
        version.minor = 4;
        header_size = Size;
    }
    static header14 create(std::istream &in)
    {
        header14 h;
        h.read(in);
        return h;
    }
    void read(std::istream &in);
    void write(std::ostream &out) const;
};

// ---------------------------------------------------------------- vlrs
struct vlr_header
{
    uint16_t reserved;
    std::string user_id;
    uint16_t record_id;
    uint16_t data_length;
    std::string description;
    static const int Size = 54;
    static vlr_header create(std::istream &in);
    void read(std::istream &in);
    void write(std::ostream &out) const;
};
struct evlr_header
{
    uint16_t reserved;
    std::string user_id;
    uint16_t record_id;
    uint64_t data_length;
    std::string description;
    static const int Size = 60;
    static evlr_header create(std::istream &in);
    void read(std::istream &in);
    void write(std::ostream &out) const;
};

struct vlr
{
    virtual ~vlr() = default;
    virtual uint64_t size() const = 0;
    virtual vlr_header header() const = 0;
    virtual evlr_header eheader() const = 0;
};

struct laz_vlr : public vlr
{
    struct laz_item
    {
        uint16_t type;
        uint16_t size;
        uint16_t version;
    };
    uint16_t compressor{0};
    uint16_t coder{0};
    uint8_t ver_major{2};
    uint8_t ver_minor{2};
    uint16_t revision{0};
    uint32_t options{0};
    uint32_t chunk_size{0};
    int64_t num_points{-1};
    int64_t num_bytes{-1};
    std::vector<laz_item> items;

    laz_vlr() = default;
    laz_vlr(int format, int ebCount, uint32_t chunksize);
    bool valid() const { return compressor == 2 || compressor == 3; }
    static laz_vlr create(std::istream &in);
    void read(std::istream &in);
    void write(std::ostream &out) const;
    uint64_t size() const override { return 34 + items.size() * 6; }
    vlr_header header() const override;
    evlr_header eheader() const override;
};

struct eb_vlr : public vlr
{
    struct ebfield
    {
        uint8_t reserved[2]{};
        uint8_t data_type{1};
        uint8_t options{0};
        std::string name;
        uint8_t unused[4]{};
        double no_data[3]{};
        double minval[3]{};
        double maxval[3]{};
        double scale[3]{};
        double offset[3]{};
        std::string description;
    };
    std::vector<ebfield> items;
    eb_vlr() = default;
    eb_vlr(int ebCount);
    void addField(const ebfield &f) { items.push_back(f); }
    void addField();
    static eb_vlr create(std::istream &in, int byteSize);
    void read(std::istream &in, int byteSize);
    void write(std::ostream &out) const;
    uint64_t size() const override { return 192 * items.size(); }
    vlr_header header() const override;
    evlr_header eheader() const override;
};

struct wkt_vlr : public vlr
{
    std::string wkt;
    wkt_vlr() = default;
    wkt_vlr(const std::string &s) : wkt(s) {}
    static wkt_vlr create(std::istream &in, int byteSize);
    void read(std::istream &in, int byteSize);
    void write(std::ostream &out) const;
    uint64_t size() const override { return wkt.size(); }
    vlr_header header() const override;
    evlr_header eheader() const override;
};

struct copc_info_vlr : public vlr
{
    double center_x{0}, center_y{0}, center_z{0}, halfsize{0}, spacing{0};
    uint64_t root_hier_offset{0};
    uint64_t root_hier_size{0};
    double gpstime_minimum{0}, gpstime_maximum{0};
    uint64_t reserved[11]{};
    static copc_info_vlr create(std::istream &in);
    void read(std::istream &in);
    void write(std::ostream &out) const;
    uint64_t size() const override { return 160; }
    vlr_header header() const override;
    evlr_header eheader() const override;
};

// ---------------------------------------------------------------- streams
struct OutFileStream
{
    OutFileStream(std::ostream &out) : f_(out) {}
    OutputCb cb();
    void putBytes(const unsigned char *c, size_t len);

  private:
    std::ostream &f_;
};
struct InFileStream
{
    InFileStream(std::istream &in);
    ~InFileStream();
    InputCb cb();
    void reset();
    void getBytes(unsigned char *c, size_t len);

  private:
    struct Private;
    std::unique_ptr<Private> p_;
};

// ---------------------------------------------------------------- codec
struct las_compressor
{
    typedef std::shared_ptr<las_compressor> ptr;
    virtual const char *compress(const char *in) = 0;
    virtual void done() = 0;
    virtual ~las_compressor() = default;
};
struct las_decompressor
{
    typedef std::shared_ptr<las_decompressor> ptr;
    virtual char *decompress(char *in) = 0;
    virtual ~las_decompressor() = default;
};
las_compressor::ptr build_las_compressor(OutputCb cb, int format, size_t ebCount = 0);
las_decompressor::ptr build_las_decompressor(InputCb cb, int format, size_t ebCount = 0);

int baseCount(int format);

struct chunk
{
    uint64_t count;
    uint64_t offset;
};
void compress_chunk_table(OutputCb cb, const std::vector<chunk> &chunks, bool variable);
std::vector<chunk> decompress_chunk_table(InputCb cb, size_t numChunks, bool variable);

// ---------------------------------------------------------------- reader
namespace reader
{
class basic_file
{
  public:
    virtual ~basic_file();
    uint64_t pointCount() const;
    const header14 &header() const;
    void readPoint(char *out);
    laz_vlr lazVlr() const;

  protected:
    basic_file();
    void open(std::istream &in);
    struct Private;
    std::unique_ptr<Private> p_;
};
class generic_file : public basic_file
{
  public:
    generic_file(std::istream &in) { open(in); }
};
} // namespace reader
} // namespace lazperf
#endif
