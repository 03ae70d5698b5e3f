#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <variant>
#include <vector>
#include "yacl/io/stream/interface.h"
namespace yacl::io {
struct Schema { enum Type { STRING, FLOAT, DOUBLE }; std::vector<Type> feature_types; std::vector<std::string> feature_names; };
using FloatColumnVector = std::vector<float>; using DoubleColumnVector = std::vector<double>; using StringColumnVector = std::vector<std::string>;
template <typename T> using ColumnVector_ = std::vector<T>; template <typename T> using ColumnVector = std::vector<T>; using ColumnType = std::variant<FloatColumnVector, StringColumnVector, DoubleColumnVector>;
class ColumnVectorBatch { public: struct ShapeT { size_t rows, cols; }; ShapeT Shape() const { return {0, 0}; } template <typename T> const T& At(size_t, size_t) const; template <typename T> T& At(size_t, size_t); template <typename C> const C& Col(size_t i) const { return std::get<C>(c_[i]); } template <typename C> C& Col(size_t i) { return std::get<C>(c_[i]); } template <typename C> void AppendCol(C&& c) { c_.emplace_back(std::forward<C>(c)); } void Clear() { c_.clear(); } bool Empty() const { return c_.empty(); } private: std::vector<ColumnType> c_; };
struct ReaderOptions { Schema file_schema; uint32_t batch_size = 5000; bool use_header_order = false; std::string column_reader_dir; bool column_reader = false; };
struct WriterOptions { Schema file_schema; };
class Reader { public: virtual ~Reader() = default; virtual void Init() = 0; virtual bool Next(size_t, ColumnVectorBatch*) = 0; virtual bool Next(ColumnVectorBatch*) = 0; virtual const Schema& GetSchema() const = 0; virtual size_t Rows() const = 0; virtual size_t Cols() const = 0; virtual const std::vector<std::string>& Headers() const = 0; };
class Writer { public: virtual ~Writer() = default; virtual void Init() = 0; virtual bool Add(const ColumnVectorBatch&) = 0; virtual void Flush() = 0; virtual void Close() = 0; };
}
