#pragma once
#include "score/json/json_parser.h"
namespace score { namespace json {
class JsonWriter {
 public:
  Result<std::string> ToBuffer(const Object& o) { return stub_encode(o); }
  Result<std::string> ToBuffer(const Any& a) { std::string s; a.stub_write(s); return s; }
  Result<std::string> ToBuffer(const List& l) { std::string s{"l"}; stub::hex(s, l.size(), 8); for (auto& e : l) e.stub_write(s); return s; }
};
} }
