#pragma once
#include <string>
#include <vector>
#include <utility>
#include <initializer_list>
namespace lib {
int subject_id(const std::string&);
std::string content(int d);
int content_id(const void* p, size_t n);
void log(const std::string& e);
std::string E(const char* e, std::initializer_list<std::pair<const char*, long>> f);
void reset();
std::vector<std::string> take();
void fail(int t, int st);
void spub(const std::string& subject, const std::string& reply, const std::string& data);
std::vector<std::string> subjects(int c);
void finish();
}
extern int lib_client;      // client the next connection belongs to
