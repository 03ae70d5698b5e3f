#pragma once
#include <sstream>
#include "yacl/io/stream/interface.h"
namespace yacl::io {
class MemInputStream : public InputStream { public: MemInputStream() = default; explicit MemInputStream(const std::string& s) : s_(s), in_(s) {} using InputStream::GetLine; InputStream& GetLine(std::string* s, char d) override { std::getline(in_, *s, d); return *this; } InputStream& Read(void* p, size_t n) override { in_.read(static_cast<char*>(p), n); return *this; } bool Eof() const override { return in_.eof(); } explicit operator bool() const override { return !!in_; } InputStream& Seekg(size_t p) override { in_.seekg(p); return *this; } size_t Tellg() override { return in_.tellg(); } size_t GetLength() const override { return s_.size(); } const std::string& GetName() const override { return n_; } void Close() override {} bool operator!() const override { return !in_; } std::unique_ptr<InputStream> Spawn() override { return std::make_unique<MemInputStream>(s_); } private: std::string s_, n_; std::istringstream in_; };
class MemOutputStream : public OutputStream { public: explicit MemOutputStream(std::string* s) : s_(s) {} void Write(const void* p, size_t n) override { s_->append(static_cast<const char*>(p), n); } void Write(std::string_view v) override { s_->append(v); } void Flush() override {} void Close() override {} const std::string& GetName() const override { return n_; } size_t Tellp() override { return s_->size(); } private: std::string* s_; std::string n_; };
}
