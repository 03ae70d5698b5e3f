#pragma once
#include <cstdint>
#include <memory>
#include <ostream>
#include <string>
#include <string_view>
#include <unordered_map>
#include <utility>
#include <vector>
#include <functional>
namespace arrow {
class [[nodiscard]] Status { public: Status() = default; static Status OK(); bool ok() const; std::string ToString() const; std::string message() const; bool IsInvalid() const; void Abort() const; void Warn() const; }; std::ostream& operator<<(std::ostream&, const Status&);
template <typename T> class [[nodiscard]] Result { public: Result() = default; Result(const Status&); Result(T); bool ok() const; const Status& status() const; const T& ValueOrDie() const&; T ValueOrDie() &&; T& ValueOrDie() &; T operator*() &&; T& operator*() &; T ValueUnsafe(); T MoveValueUnsafe(); };
class DataType { public: std::string ToString() const; std::string name() const; bool Equals(const DataType&) const; int id() const; }; struct Type { enum type { NA, BOOL, UINT64, INT64, DOUBLE, STRING, INT32, UINT32, FLOAT }; };
std::shared_ptr<DataType> utf8(); std::shared_ptr<DataType> int64(); std::shared_ptr<DataType> uint64(); std::shared_ptr<DataType> int32(); std::shared_ptr<DataType> uint32(); std::shared_ptr<DataType> float64(); std::shared_ptr<DataType> float32(); std::shared_ptr<DataType> boolean(); std::shared_ptr<DataType> large_utf8(); std::shared_ptr<DataType> binary();
class Field { public: const std::string& name() const; const std::shared_ptr<DataType>& type() const; };
class Schema { public: int num_fields() const; const std::vector<std::shared_ptr<Field>>& fields() const; std::shared_ptr<Field> field(int) const; std::vector<std::string> field_names() const; int GetFieldIndex(const std::string&) const; std::shared_ptr<Field> GetFieldByName(const std::string&) const; std::string ToString() const; };
std::shared_ptr<Field> field(std::string, std::shared_ptr<DataType>, bool = true); std::shared_ptr<Schema> schema(std::vector<std::shared_ptr<Field>>);
class MemoryPool {}; MemoryPool* default_memory_pool();
class Scalar { public: virtual ~Scalar() = default; std::string ToString() const; bool is_valid = true; };
template <typename T> class NumScalar : public Scalar { public: explicit NumScalar(T v) : value(v) {} T value; }; using UInt64Scalar = NumScalar<uint64_t>; using Int64Scalar = NumScalar<int64_t>; using DoubleScalar = NumScalar<double>; class StringScalar : public Scalar { public: explicit StringScalar(std::string); };
class Buffer; class ArrayData;
class Array { public: virtual ~Array() = default; int64_t length() const; bool IsNull(int64_t) const; bool IsValid(int64_t) const; int64_t null_count() const; std::shared_ptr<DataType> type() const; int type_id() const; Result<std::shared_ptr<Scalar>> GetScalar(int64_t) const; std::shared_ptr<Array> Slice(int64_t, int64_t) const; std::string ToString() const; };
class StringArray : public Array { public: std::string_view Value(int64_t) const; std::string GetString(int64_t) const; std::string_view GetView(int64_t) const; };
template <typename T> class NumArray : public Array { public: T Value(int64_t) const; const T* raw_values() const; T GetView(int64_t) const; }; using Int64Array = NumArray<int64_t>; using UInt64Array = NumArray<uint64_t>; using DoubleArray = NumArray<double>; using BooleanArray = NumArray<bool>;
class ChunkedArray { public: int num_chunks() const; std::shared_ptr<Array> chunk(int) const; int64_t length() const; };
class RecordBatch { public: int64_t num_rows() const; int num_columns() const; std::shared_ptr<Array> column(int) const; std::shared_ptr<Array> GetColumnByName(const std::string&) const; const std::shared_ptr<Schema>& schema() const; const std::string& column_name(int) const; std::vector<std::shared_ptr<Array>> columns() const; static std::shared_ptr<RecordBatch> Make(std::shared_ptr<Schema>, int64_t, std::vector<std::shared_ptr<Array>>); std::shared_ptr<RecordBatch> Slice(int64_t, int64_t) const; Status Validate() const; std::string ToString() const; };
class Table { public: int64_t num_rows() const; int num_columns() const; std::shared_ptr<ChunkedArray> column(int) const; std::shared_ptr<Schema> schema() const; static Result<std::shared_ptr<Table>> FromRecordBatches(std::shared_ptr<Schema>, const std::vector<std::shared_ptr<RecordBatch>>&); };
class RecordBatchReader { public: virtual ~RecordBatchReader() = default; Status ReadNext(std::shared_ptr<RecordBatch>*); std::shared_ptr<Schema> schema() const; Status Close(); Result<std::shared_ptr<RecordBatch>> Next(); };
class ArrayBuilder { public: virtual ~ArrayBuilder() = default; Status AppendScalar(const Scalar&); Status Append(uint64_t); Status AppendNull(); Result<std::shared_ptr<Array>> Finish(); Status Finish(std::shared_ptr<Array>*); void Reset(); int64_t length() const; Status Reserve(int64_t); Status Resize(int64_t); };
class StringBuilder : public ArrayBuilder { public: Status Append(const std::string&); Status AppendValues(const std::vector<std::string>&); }; class Int64Builder : public ArrayBuilder { public: Status Append(int64_t); Status AppendValues(const std::vector<int64_t>&); }; class UInt64Builder : public ArrayBuilder { public: Status Append(uint64_t); Status AppendValues(const std::vector<uint64_t>&); };
Result<std::unique_ptr<ArrayBuilder>> MakeBuilder(const std::shared_ptr<DataType>&, MemoryPool* = nullptr);
class Datum { public: Datum() = default; template <typename T> Datum(T&&); std::shared_ptr<Array> make_array() const; std::shared_ptr<ChunkedArray> chunked_array() const; };
namespace io { class IOContext { public: IOContext() = default; }; IOContext default_io_context(); class InputStream { public: virtual ~InputStream() = default; Status Close(); }; class OutputStream { public: virtual ~OutputStream() = default; Status Close(); Status Flush(); }; class RandomAccessFile : public InputStream {}; class ReadableFile : public RandomAccessFile { public: static Result<std::shared_ptr<ReadableFile>> Open(const std::string&, MemoryPool* = nullptr); bool closed() const; }; class FileOutputStream : public OutputStream { public: static Result<std::shared_ptr<FileOutputStream>> Open(const std::string&, bool = false); bool closed() const; }; }
namespace csv { struct ReadOptions { bool use_threads; int32_t block_size; int64_t skip_rows; std::vector<std::string> column_names; bool autogenerate_column_names; static ReadOptions Defaults(); }; struct ParseOptions { char delimiter; bool quoting; bool newlines_in_values; bool ignore_empty_lines; bool double_quote; bool escaping; static ParseOptions Defaults(); }; struct ConvertOptions { std::unordered_map<std::string, std::shared_ptr<DataType>> column_types; std::vector<std::string> include_columns; bool include_missing_columns; bool check_utf8; bool strings_can_be_null; bool quoted_strings_can_be_null; std::vector<std::string> null_values; static ConvertOptions Defaults(); }; struct WriteOptions { bool include_header; static WriteOptions Defaults(); };
class StreamingReader : public RecordBatchReader { public: static Result<std::shared_ptr<StreamingReader>> Make(io::IOContext, std::shared_ptr<io::InputStream>, const ReadOptions&, const ParseOptions&, const ConvertOptions&); }; class TableReader { public: Result<std::shared_ptr<Table>> Read(); static Result<std::shared_ptr<TableReader>> Make(io::IOContext, std::shared_ptr<io::InputStream>, const ReadOptions&, const ParseOptions&, const ConvertOptions&); }; }
namespace ipc { class RecordBatchWriter { public: virtual ~RecordBatchWriter() = default; Status WriteRecordBatch(const RecordBatch&); Status WriteTable(const Table&); Status Close(); }; using RecordBatchReader = arrow::RecordBatchReader; struct IpcWriteOptions { static IpcWriteOptions Defaults(); }; class RecordBatchStreamReader : public RecordBatchReader { public: static Result<std::shared_ptr<RecordBatchStreamReader>> Open(std::shared_ptr<io::InputStream>); }; Result<std::shared_ptr<RecordBatchWriter>> MakeStreamWriter(io::OutputStream*, std::shared_ptr<Schema>); Result<std::shared_ptr<RecordBatchWriter>> MakeStreamWriter(std::shared_ptr<io::OutputStream>, std::shared_ptr<Schema>); Result<std::shared_ptr<RecordBatchWriter>> MakeFileWriter(std::shared_ptr<io::OutputStream>, std::shared_ptr<Schema>); }
namespace csv { Result<std::shared_ptr<ipc::RecordBatchWriter>> MakeCSVWriter(std::shared_ptr<io::OutputStream>, const std::shared_ptr<Schema>&, const WriteOptions& = {}); Result<std::shared_ptr<ipc::RecordBatchWriter>> MakeCSVWriter(io::OutputStream*, const std::shared_ptr<Schema>&, const WriteOptions& = {}); Status WriteCSV(const RecordBatch&, const WriteOptions&, io::OutputStream*); }
namespace compute { Result<Datum> CallFunction(const std::string&, const std::vector<Datum>&); Result<Datum> Cast(const Datum&, std::shared_ptr<DataType>); }
Status PrettyPrint(const Array&, int, std::ostream*);
}
