/* Copies made by threads other than the one that loaded the extension are delayed: the schedule in
   which every helper thread is slower than its creator. */
#include <string.h>
#include <cstring>
#include <pthread.h>
#include <time.h>
static pthread_t verif_main = pthread_self();
static inline void *verif_memcpy(void *d, const void *s, size_t n) {
  if (!pthread_equal(verif_main, pthread_self()) && n > 0) {
    struct timespec ts = {0, 3000000};
    nanosleep(&ts, 0);
  }
  return memcpy(d, s, n);
}
namespace std { using ::verif_memcpy; }
#define memcpy verif_memcpy
