#ifndef VERIF_PLONK_OSS_H_
#define VERIF_PLONK_OSS_H_
// what is written to a string stream, character by character; a field element
// is one symbol
namespace std {
class verif_oss {
 public:
  verif_oss& operator<<(const char* s) {
    for (; *s; ++s) v.push_back(static_cast<unsigned char>(*s));
    return *this;
  }
  verif_oss& operator<<(char c) {
    v.push_back(static_cast<unsigned char>(c));
    return *this;
  }
  verif_oss& operator<<(const verif::F::Str& s) {
    v.push_back(uint64_t{1} << 32);
    v.push_back(s.h);
    return *this;
  }
  verif_oss& operator<<(unsigned long n) {
    char b[24];
    int k = 0;
    do {
      b[k++] = static_cast<char>('0' + n % 10);
      n /= 10;
    } while (n);
    while (k) *this << b[--k];
    return *this;
  }
  verif_oss& operator<<(unsigned n) { return *this << static_cast<unsigned long>(n); }
  verif_oss& operator<<(long n) {
    if (n < 0) {
      *this << '-';
      return *this << (0 - static_cast<unsigned long>(n));
    }
    return *this << static_cast<unsigned long>(n);
  }
  verif_oss& operator<<(int n) { return *this << static_cast<long>(n); }
  verif_oss& operator<<(const string& s) {
    for (char c : s) v.push_back(static_cast<unsigned char>(c));
    return *this;
  }
  string str() const {
    string r;
    for (uint64_t x : v) {
      if (x > 255) abort();
      r.push_back(static_cast<char>(x));
    }
    return r;
  }
  vector<uint64_t> v;
};
}  // namespace std
#endif  // VERIF_PLONK_OSS_H_
