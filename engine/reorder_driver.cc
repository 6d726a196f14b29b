// Reads length-prefixed token streams, writes the runtime's reordering of each.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <string>

#include "processor/wetext_token_parser.h"
#include "utils/wetext_string.h"

static bool get(std::string* out) {
  uint32_t n;
  if (fread(&n, 4, 1, stdin) != 1) return false;
  out->resize(n);
  return n == 0 || fread(&(*out)[0], 1, n, stdin) == n;
}
static void put(char status, const std::string& text) {
  uint32_t n = text.size();
  fputc(status, stdout);
  fwrite(&n, 4, 1, stdout);
  fwrite(text.data(), 1, n, stdout);
}

int main(int argc, char** argv) {
  std::string text;
  if (argc > 1 && std::string(argv[1]) == "split") {
    while (get(&text)) {
      std::vector<std::string> chars;
      wetext::SplitUTF8StringToChars(text, &chars);
      std::string joined;
      for (auto& c : chars) { joined += c; joined += '\0'; }
      if ((int)chars.size() != wetext::UTF8StringLength(text)) { put('!', "length"); continue; }
      put('+', joined);
    }
    return 0;
  }
  wetext::TokenParser parser((wetext::ParseType)atoi(argv[1]));
  while (get(&text)) {
    try { put('+', parser.Reorder(text)); }
    catch (const std::exception& e) { put('-', e.what()); }
  }
  return 0;
}
