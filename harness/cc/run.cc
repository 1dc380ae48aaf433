// Validates the messages of a case file: one line per case with what Validate
// and CheckMessage answer.
#include "run.h"
#include <fstream>
#include <iostream>

std::map<std::string, Entry>& entries() {
  static auto* m = new std::map<std::string, Entry>();
  return *m;
}

static std::string unhex(const std::string& s) {
  std::string out;
  for (size_t i = 0; i + 1 < s.size(); i += 2) out.push_back(static_cast<char>(std::stoi(s.substr(i, 2), nullptr, 16)));
  return out;
}

static std::string hex(const std::string& s) {
  static const char d[] = "0123456789abcdef";
  std::string out = "=";
  for (unsigned char c : s) {
    out.push_back(d[c >> 4]);
    out.push_back(d[c & 15]);
  }
  return out;
}

static void answer(std::ostream& o, const std::function<bool(const google::protobuf::Message&, std::string*)>& f, const google::protobuf::Message& m) {
  std::string err;
  try {
    bool ok = f(m, &err);
    o << (ok ? 'T' : 'F') << hex(err);
  } catch (const pgv::UnimplementedException& e) {
    o << 'U' << hex(e.what());
  } catch (const std::exception& e) {
    o << 'E' << hex(e.what());
  }
}

int main(int argc, char** argv) {
  if (argc != 3) return 3;
  std::ifstream in(argv[1]);
  std::ofstream o(argv[2]);
  std::string line;
  while (std::getline(in, line)) {
    size_t t = line.find('\t'), u = line.find('\t', t + 1);
    std::string name = line.substr(0, t), wire = line.substr(t + 1, u - t - 1);
    auto it = entries().find(name);
    if (it == entries().end()) {
      o << "M\n" << std::flush;
      continue;
    }
    auto m = it->second.make();
    if (!m->ParsePartialFromString(unhex(wire))) {
      o << "P\n" << std::flush;
      continue;
    }
    answer(o, it->second.validate, *m);
    o << '\t';
    answer(o, it->second.check, *m);
    o << '\n' << std::flush;
  }
  o.close();
  google::protobuf::ShutdownProtobufLibrary();
  return 0;
}
