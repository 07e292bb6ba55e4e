/* the first and the last object at linking: the library's writable data is
 * between these */
#define CAT(a, b) a##b
#define N(p, x) CAT(p, x)
long N(MARK, _data)[2] = {1, 2};
long N(MARK, _bss)[2];
__thread long N(MARK, _tdata)[2] = {1, 2};
__thread long N(MARK, _tbss)[2];
long *N(MARK, _p)(int k) {
  switch (k) {
  case 0:
    return N(MARK, _data);
  case 1:
    return N(MARK, _bss);
  case 2:
    return N(MARK, _tdata);
  default:
    return N(MARK, _tbss);
  }
}
