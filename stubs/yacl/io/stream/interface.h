#pragma once
#include <memory>
#include <string>
#include <string_view>
#include <istream>
#include "yacl/base/exception.h"
namespace yacl::io {
class InputStream { public: using Streampos = std::streampos; static const std::streampos npos; virtual ~InputStream() = default; virtual InputStream& GetLine(std::string*, char) = 0; virtual InputStream& GetLine(std::string* s) { return GetLine(s, '\n'); } virtual InputStream& Read(void*, size_t) = 0; virtual bool Eof() const = 0; virtual explicit operator bool() const = 0; virtual InputStream& Seekg(size_t) = 0; virtual size_t Tellg() = 0; virtual size_t GetLength() const = 0; virtual const std::string& GetName() const = 0; virtual void Close() = 0; virtual bool operator!() const = 0; virtual std::unique_ptr<InputStream> Spawn() = 0; virtual bool IsStreaming() { return false; } };
class OutputStream { public: virtual ~OutputStream() = default; virtual void Write(const void*, size_t) = 0; virtual void Write(std::string_view) = 0; virtual void Flush() = 0; virtual void Close() = 0; virtual const std::string& GetName() const = 0; virtual size_t Tellp() = 0; };
}
