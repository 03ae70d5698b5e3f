#pragma once
#include <fstream>
#include "yacl/io/stream/interface.h"
namespace yacl::io {
class FileInputStream : public InputStream { public: explicit FileInputStream(std::string f) : f_(std::move(f)), in_(f_) {} using InputStream::GetLine; InputStream& GetLine(std::string* s, char d) override { std::getline(in_, *s, d); return *this; } InputStream& Read(void* p, size_t n) override { in_.read(static_cast<char*>(p), n); return *this; } bool Eof() const override { return in_.eof(); } explicit operator bool() const override { return !!in_; } InputStream& Seekg(size_t p) override { in_.seekg(p); return *this; } size_t Tellg() override { return in_.tellg(); } size_t GetLength() const override { std::ifstream i(f_, std::ios::ate); return i.tellg(); } const std::string& GetName() const override { return f_; } void Close() override { in_.close(); } bool operator!() const override { return !in_; } std::unique_ptr<InputStream> Spawn() override { return std::make_unique<FileInputStream>(f_); } private: std::string f_; std::ifstream in_; };
class FileOutputStream : public OutputStream { public: explicit FileOutputStream(std::string f, bool trunc = true, bool mk = true) : f_(std::move(f)), out_(f_, trunc ? std::ios::trunc : std::ios::app) { (void)mk; if (!out_) ThrowYacl(); } void Write(const void* p, size_t n) override { out_.write(static_cast<const char*>(p), n); } void Write(std::string_view s) override { out_ << s; } void Flush() override { out_.flush(); } void Close() override { out_.close(); } const std::string& GetName() const override { return f_; } size_t Tellp() override { return out_.tellp(); } private: std::string f_; std::ofstream out_; };
}
