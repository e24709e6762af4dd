/* Each simulated program has its own option parser state, as separate processes do. */
#include <string.h>
char *optarg; int optind = 1, opterr = 1, optopt; static int pos;
int getopt(int argc, char *const *argv, const char *o){
  char *a; const char *q; int c;
  if(optind == 0){ optind = 1; pos = 0; }
  if(pos == 0){ if(optind >= argc || !(a = argv[optind]) || a[0] != '-' || a[1] == 0) return -1; if(a[1] == '-' && a[2] == 0){ optind++; return -1; } pos = 1; }
  a = argv[optind]; c = (unsigned char)a[pos++]; optopt = c; q = c == ':' ? 0 : strchr(o, c);
  if(!q){ if(!a[pos]){ optind++; pos = 0; } return '?'; }
  if(q[1] == ':'){ if(a[pos]) optarg = a + pos; else { optind++; if(optind >= argc){ pos = 0; return o[0] == ':' ? ':' : '?'; } optarg = argv[optind]; } optind++; pos = 0; return c; }
  optarg = 0; if(!a[pos]){ optind++; pos = 0; } return c;
}
