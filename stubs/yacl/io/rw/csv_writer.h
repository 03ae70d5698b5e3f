#pragma once
#include "yacl/io/rw/reader.h"
namespace yacl::io { class CsvWriter : public Writer { public: CsvWriter(const WriterOptions&, std::unique_ptr<OutputStream>, char = ',', char = '\n'); void Init() override; bool Add(const ColumnVectorBatch&) override; void Flush() override; void Close() override; }; }
