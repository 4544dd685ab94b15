// A number that an integral destination cannot hold: the conversion from double is undefined.
// exit status 10: UndefinedBehaviorSanitizer reports it
// flags: -fsanitize=float-cast-overflow -fno-sanitize-recover=all
#include <sys/wait.h>
#include <unistd.h>

#include "blet/args.h"

int main() {
    pid_t pid = fork();
    if (pid == 0) {
        close(2);
        blet::Args args;
        int n = 0;
        args.addArgument("-n").dest(n);
        const char* av[] = {"prog", "-n", "3000000000"};
        args.parseArguments(3, const_cast<char**>(av));
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    return WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 0 : 10;
}
