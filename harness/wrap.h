// What display() is to write for a message.
#ifndef WRAP_H
#define WRAP_H
#include "mon.h"
namespace mon {
  inline bool isBlank(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\v' || c == '\f'; }
  // breakFirst: whether the first word of a line that does not fit is put on
  // a line of its own when the line has a prefix or an indentation.
  inline std::string wrapped(const std::string& msg, const std::string& prefix, bool breakFirst, bool* openEnd = 0) {
    std::string out;
    if (openEnd) *openEnd = false;
    size_t at = 0;
    while (at < msg.size()) {
      size_t end = msg.find('\n', at);
      bool terminated = end != std::string::npos;
      if (!terminated) end = msg.size();
      std::string line = msg.substr(at, end - at);
      at = terminated ? end + 1 : end;
      size_t p = 0;
      while (p < line.size() && isBlank(line[p])) ++p;
      std::string start = prefix + line.substr(0, p);
      out += start;
      size_t width = start.size();
      bool first = true;
      if (p == line.size() && !terminated) { if (openEnd) *openEnd = true; break; }
      while (p < line.size()) {
        size_t g = p;
        while (p < line.size() && isBlank(line[p])) ++p;
        std::string gap = line.substr(g, p - g);
        size_t w = p;
        while (p < line.size() && !isBlank(line[p])) ++p;
        std::string word = line.substr(w, p - w);
        if (word.empty()) break; // white space at the end
        if (width != 0 && width + gap.size() + word.size() > 79 && (!first || breakFirst)) {
          out += '\n' + start;
          width = start.size();
        } else { out += gap; width += gap.size(); }
        out += word;
        width += word.size();
        first = false;
      }
      out += '\n';
    }
    return out;
  }
  inline bool isWrapped(const std::string& text, const std::string& msg, const std::string& prefix) {
    bool open = false;
    if (text == wrapped(msg, prefix, true, &open) || text == wrapped(msg, prefix, false)) return true;
    return open && (text == wrapped(msg, prefix, true) + '\n' || text == wrapped(msg, prefix, false) + '\n');
  }
}
#endif
