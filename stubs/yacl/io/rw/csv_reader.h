#pragma once
#include "yacl/io/rw/reader.h"
namespace yacl::io { class CsvReader : public Reader { public: CsvReader(const ReaderOptions&, std::unique_ptr<InputStream>, char = ',', char = '\n'); void Init() override; bool Next(size_t, ColumnVectorBatch*) override; bool Next(ColumnVectorBatch*) override; const Schema& GetSchema() const override; size_t Rows() const override; size_t Cols() const override; const std::vector<std::string>& Headers() const override; }; }
