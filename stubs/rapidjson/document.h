#pragma once
#include <cstddef>
#include <string>
namespace rapidjson { using SizeType = unsigned; class Value { public: const char* GetString() const; SizeType GetStringLength() const; Value& operator[](const char*); const Value& operator[](const char*) const; bool HasMember(const char*) const; bool IsString() const; bool IsObject() const; int GetInt() const; }; class Document : public Value { public: Document& Parse(const char*); bool HasParseError() const; int GetParseError() const; }; class StringBuffer { public: const char* GetString() const; }; template <typename T> class Writer { public: explicit Writer(T&); }; }
