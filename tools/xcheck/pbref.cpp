// What libprotobuf says about the schemas and payloads that `pf xgen` wrote. Same text format.
#include <google/protobuf/compiler/parser.h>
#include <google/protobuf/descriptor.h>
#include <google/protobuf/descriptor.pb.h>
#include <google/protobuf/dynamic_message.h>
#include <google/protobuf/io/tokenizer.h>
#include <google/protobuf/io/zero_copy_stream_impl_lite.h>
#include <algorithm>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
using namespace google::protobuf;
using std::string; using std::vector;

struct Errors : io::ErrorCollector, DescriptorPool::ErrorCollector {
  string text;
  void AddError(int line, int col, const string& m) override { text += std::to_string(line) + ":" + std::to_string(col) + " " + m + "; "; }
  void AddError(const string& f, const string& e, const Message*, ErrorLocation, const string& m) override { text += e + ": " + m + "; "; }
};
static string hex(const string& s) { string o; char b[3]; for (unsigned char c : s) { snprintf(b, 3, "%02x", c); o += b; } return o; }
static string parent(const Descriptor* d) { return d ? d->full_name() : "-"; }
static void dump(const EnumDescriptor* e, vector<string>& L) {
  L.push_back("e " + e->full_name() + " " + parent(e->containing_type()));
  std::set<int> vs; for (int i = 0; i < e->value_count(); i++) vs.insert(e->value(i)->number());
  for (int v : vs) L.push_back("v " + e->full_name() + " " + std::to_string(v));
}
static void dump(const Descriptor* m, vector<string>& L) {
  L.push_back("m " + m->full_name() + " " + parent(m->containing_type()));
  for (int i = 0; i < m->field_count(); i++) {
    auto f = m->field(i); string t = f->type_name(), label = "single";
    if (f->message_type()) t = "message:" + f->message_type()->full_name();
    if (f->enum_type()) t = "enum:" + f->enum_type()->full_name();
    if (f->is_repeated()) label = f->enum_type() ? "repeated-enum" : f->is_packed() ? "packed" : "repeated";
    else if (f->has_optional_keyword()) label = "optional";
    auto o = f->real_containing_oneof();
    L.push_back("f " + m->full_name() + " " + std::to_string(f->number()) + " " + f->name() + " " + t + " " + label + " " + (o ? o->name() : "-"));
  }
  for (int i = 0; i < m->real_oneof_decl_count(); i++) {
    auto o = m->oneof_decl(i); vector<int> ns; for (int k = 0; k < o->field_count(); k++) ns.push_back(o->field(k)->number());
    std::sort(ns.begin(), ns.end()); std::ostringstream s; s << "o " << m->full_name() << " " << o->name() << " [";
    for (size_t k = 0; k < ns.size(); k++) s << (k ? ", " : "") << ns[k];
    s << "]"; L.push_back(s.str());
  }
  for (int i = 0; i < m->enum_type_count(); i++) dump(m->enum_type(i), L);
  for (int i = 0; i < m->nested_type_count(); i++) dump(m->nested_type(i), L);
}
static void show(const Message& m, string& out);
template <class T> static string bits(T v) { if (sizeof(T) == 4) { uint32_t u; memcpy(&u, &v, 4); return std::to_string(u); } uint64_t u; memcpy(&u, &v, 8); return std::to_string(u); }
static void value(const Message& m, const FieldDescriptor* f, int i, string& out) {
  auto r = m.GetReflection(); bool rep = i >= 0;
#define G(N) (rep ? r->GetRepeated##N(m, f, i) : r->Get##N(m, f))
  switch (f->cpp_type()) {
    case FieldDescriptor::CPPTYPE_INT32: out += std::to_string(G(Int32)); break;
    case FieldDescriptor::CPPTYPE_INT64: out += std::to_string(G(Int64)); break;
    case FieldDescriptor::CPPTYPE_UINT32: out += std::to_string(G(UInt32)); break;
    case FieldDescriptor::CPPTYPE_UINT64: out += std::to_string(G(UInt64)); break;
    case FieldDescriptor::CPPTYPE_BOOL: out += G(Bool) ? "1" : "0"; break;
    case FieldDescriptor::CPPTYPE_FLOAT: out += bits(G(Float)); break;
    case FieldDescriptor::CPPTYPE_DOUBLE: out += bits(G(Double)); break;
    case FieldDescriptor::CPPTYPE_ENUM: out += std::to_string(rep ? r->GetRepeatedEnumValue(m, f, i) : r->GetEnumValue(m, f)); break;
    case FieldDescriptor::CPPTYPE_STRING: out += "'" + hex(G(String)) + "'"; break;
    case FieldDescriptor::CPPTYPE_MESSAGE: show(rep ? r->GetRepeatedMessage(m, f, i) : r->GetMessage(m, f), out); break;
  }
}
static void show(const Message& m, string& out) {
  vector<const FieldDescriptor*> fs; m.GetReflection()->ListFields(m, &fs);
  std::sort(fs.begin(), fs.end(), [](auto a, auto b) { return a->number() < b->number(); });
  out += "{";
  for (auto f : fs) {
    out += std::to_string(f->number()) + ":";
    if (f->is_repeated()) { out += "["; int n = m.GetReflection()->FieldSize(m, f); for (int i = 0; i < n; i++) { value(m, f, i, out); out += ","; } out += "]"; }
    else value(m, f, -1, out);
    out += ";";
  }
  out += "}";
}
int main() {
  SetLogHandler(nullptr);
  std::unique_ptr<DescriptorPool> pool; std::unique_ptr<DynamicMessageFactory> factory; bool ok = false;
  string line;
  while (std::getline(std::cin, line)) {
    std::istringstream s(line); string k; s >> k;
    if (k == "S") {
      string id; size_t n; s >> id >> n; string text(n, 0); std::cin.read(&text[0], n); std::cin.get();
      std::cout << "CASE " << id << "\n";
      io::ArrayInputStream in(text.data(), text.size()); Errors err; io::Tokenizer tok(&in, &err); compiler::Parser p; p.RecordErrorsTo(&err);
      FileDescriptorProto fd; ok = p.Parse(&tok, &fd) && err.text.empty(); fd.set_name("x.proto");
      factory.reset(); pool.reset(new DescriptorPool); factory.reset(new DynamicMessageFactory(pool.get()));
      const FileDescriptor* f = ok ? pool->BuildFileCollectingErrors(fd, &err) : nullptr; ok = f != nullptr;
      if (!ok) { std::cout << "REJECTED " << err.text << "\n"; continue; }
      vector<string> L;
      for (int i = 0; i < f->message_type_count(); i++) dump(f->message_type(i), L);
      for (int i = 0; i < f->enum_type_count(); i++) dump(f->enum_type(i), L);
      for (int i = 0; i < f->service_count(); i++) { auto v = f->service(i); L.push_back("s " + v->full_name());
        for (int k = 0; k < v->method_count(); k++) { auto r = v->method(k);
          L.push_back("r " + v->full_name() + " " + std::to_string(k) + " " + r->name() + " " + r->input_type()->full_name() + " " + (r->client_streaming() ? "1" : "0") + " " + r->output_type()->full_name() + " " + (r->server_streaming() ? "1" : "0")); } }
      std::sort(L.begin(), L.end()); for (auto& l : L) std::cout << l << "\n";
    } else if (k == "P" && ok) {
      string name, h, data; s >> name >> h; for (size_t i = 0; i + 1 < h.size(); i += 2) data += (char)std::stoi(h.substr(i, 2), nullptr, 16);
      auto d = pool->FindMessageTypeByName(name); if (!d) { std::cout << "p unknown type\n"; continue; }
      std::unique_ptr<Message> m(factory->GetPrototype(d)->New());
      if (!m->ParseFromString(data)) { std::cout << "p FAIL\n"; continue; }
      string out; show(*m, out); std::cout << "p " << out << "\n";
    }
  }
}
