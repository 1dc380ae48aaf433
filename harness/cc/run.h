// Registry of the generated message types.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <google/protobuf/message.h>
#include "validate/validate.h"

struct Entry {
  std::function<std::unique_ptr<google::protobuf::Message>()> make;
  std::function<bool(const google::protobuf::Message&, std::string*)> validate, check;
};
std::map<std::string, Entry>& entries();

template <class T>
struct Register {
  Register() {
    Entry e;
    e.make = [] { return std::unique_ptr<google::protobuf::Message>(new T); };
    e.validate = [](const google::protobuf::Message& m, std::string* err) { return Validate(static_cast<const T&>(m), err); };
    e.check = [](const google::protobuf::Message& m, std::string* err) { return pgv::Validator<T>::CheckMessage(static_cast<const T&>(m), err); };
    entries()[T::descriptor()->full_name()] = e;
  }
};
#define PGV_CAT2(a, b) a##b
#define PGV_CAT(a, b) PGV_CAT2(a, b)
#define PGV_REGISTER(T) static Register<T> PGV_CAT(pgv_reg_, __COUNTER__);
