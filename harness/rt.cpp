// Library code that symbolic execution needs in IR form.  vfx_NAME stands in for
// NAME; each definition has the documented behaviour of the library function.
#include <stddef.h>
#include <stdint.h>
extern "C" {
void *malloc(size_t);
size_t vfx_strlen(const char *s) {
  size_t n = 0;
  while (s[n])
    n++;
  return n;
}
size_t vfx_strnlen(const char *s, size_t m) {
  size_t n = 0;
  while (n < m && s[n])
    n++;
  return n;
}
int vfx_memcmp(const void *a, const void *b, size_t n) {
  const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
  for (size_t i = 0; i < n; i++)
    if (x[i] != y[i])
      return (int)x[i] - (int)y[i];
  return 0;
}
int vfx_bcmp(const void *a, const void *b, size_t n) { return vfx_memcmp(a, b, n); }
int vfx_strcmp(const char *a, const char *b) {
  size_t i = 0;
  while (a[i] && a[i] == b[i])
    i++;
  return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
}
int vfx_strncmp(const char *a, const char *b, size_t n) {
  for (size_t i = 0; i < n; i++) {
    if (a[i] != b[i])
      return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
    if (!a[i])
      return 0;
  }
  return 0;
}
void *vfx_memchr(const void *s, int c, size_t n) {
  const unsigned char *x = (const unsigned char *)s;
  for (size_t i = 0; i < n; i++)
    if (x[i] == (unsigned char)c)
      return (void *)(x + i);
  return nullptr;
}
char *vfx_strchr(const char *s, int c) {
  for (;; s++) {
    if (*s == (char)c)
      return (char *)s;
    if (!*s)
      return nullptr;
  }
}
char *vfx_strrchr(const char *s, int c) {
  const char *r = nullptr;
  for (;; s++) {
    if (*s == (char)c)
      r = s;
    if (!*s)
      return (char *)r;
  }
}
char *vfx_strcpy(char *d, const char *s) {
  size_t i = 0;
  for (;; i++) {
    d[i] = s[i];
    if (!s[i])
      return d;
  }
}
char *vfx_strncpy(char *d, const char *s, size_t n) {
  size_t i = 0;
  for (; i < n && s[i]; i++)
    d[i] = s[i];
  for (; i < n; i++)
    d[i] = 0;
  return d;
}
char *vfx_strcat(char *d, const char *s) {
  vfx_strcpy(d + vfx_strlen(d), s);
  return d;
}
char *vfx_strncat(char *d, const char *s, size_t n) {
  char *e = d + vfx_strlen(d);
  size_t i = 0;
  for (; i < n && s[i]; i++)
    e[i] = s[i];
  e[i] = 0;
  return d;
}
char *vfx_strdup(const char *s) {
  size_t n = vfx_strlen(s) + 1;
  char *d = (char *)malloc(n);
  for (size_t i = 0; i < n; i++)
    d[i] = s[i];
  return d;
}
// libstdc++'s containers: a constant hash and a fixed bucket count are valid
// choices of an unspecified detail.
size_t vfx__ZSt11_Hash_bytesPKvmm(const void *, size_t, size_t) { return 5; }
struct rehash_result {
  bool first;
  size_t second;
};
rehash_result vfx__ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(const void *, size_t nbkt, size_t nelt, size_t nins) {
  if (nelt + nins > nbkt)
    return {true, 2 * (nelt + nins) + 1};
  return {false, 0};
}
size_t vfx__ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(const void *, size_t n) { return n | 1; }
// ordered containers: an unbalanced tree keeps the same order
struct rbnode {
  int color;
  rbnode *parent, *left, *right;
};
void vfx__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool left, rbnode *x, rbnode *p, rbnode *h) {
  x->parent = p;
  x->left = x->right = nullptr;
  x->color = 1;
  if (left) {
    p->left = x;
    if (p == h) {
      h->parent = x;
      h->right = x;
    } else if (p == h->left)
      h->left = x;
  } else {
    p->right = x;
    if (p == h->right)
      h->right = x;
  }
}
static rbnode *rbnext(rbnode *x) {
  if (x->right) {
    x = x->right;
    while (x->left)
      x = x->left;
    return x;
  }
  rbnode *y = x->parent;
  while (x == y->right) {
    x = y;
    y = y->parent;
  }
  return x->right != y ? y : x;
}
rbnode *vfx__ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(rbnode *x) { return rbnext(x); }
rbnode *vfx__ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(rbnode *x) { return rbnext(x); }
static rbnode *rbprev(rbnode *x) {
  if (x->color == 0 && x->parent && x->parent->parent == x)
    return x->right;
  if (x->left) {
    x = x->left;
    while (x->right)
      x = x->right;
    return x;
  }
  rbnode *y = x->parent;
  while (x == y->left) {
    x = y;
    y = y->parent;
  }
  return y;
}
rbnode *vfx__ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(rbnode *x) { return rbprev(x); }
rbnode *vfx__ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base(rbnode *x) { return rbprev(x); }
}
// error categories are only compared by address
extern "C" {
static char vf_syscat[64], vf_gencat[64];
void *vfx__ZNSt3_V215system_categoryEv() { return vf_syscat; }
void *vfx__ZNSt3_V216generic_categoryEv() { return vf_gencat; }
}
// file names are not taken apart
extern "C" {
void vfx__ZNSt10filesystem7__cxx114path5_ListC1Ev(void **l) { *l = nullptr; }
void vfx__ZNSt10filesystem7__cxx114path5_ListC1ERKS2_(void **l, void *) { *l = nullptr; }
void vfx__ZNSt10filesystem7__cxx114path14_M_split_cmptsEv(void *) {}
}
