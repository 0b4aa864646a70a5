// Does ThreadSanitizer work here? As in the driver, threads run in forked
// processes. usage: tsan_probe yes|no (with or without a race)
#include <sys/wait.h>
#include <unistd.h>

#include <thread>

int shared[2];
int main(int, char** a) {
  const bool race = a[1][0] == 'y';
  const pid_t pid = fork();
  if (!pid) {
    for (int i = 0; i < 20; i++) {
      std::thread s([&] { for (int k = 0; k < 1000; k++) shared[0]++; });
      std::thread t([&] {
        for (int k = 0; k < 1000; k++) shared[race ? 0 : 1]++;
      });
      s.join();
      t.join();
    }
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  return WIFEXITED(st) ? WEXITSTATUS(st) : 1;
}
