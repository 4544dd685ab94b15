// Integral destinations are converted through double: beyond 2^53 the number is not the one of the text.
// exit status 10: it still does
#include "blet/args.h"

int main() {
    blet::Args args;
    long n = 0;
    args.addArgument("-n").dest(n);
    const char* av[] = {"prog", "-n", "9007199254740993"};
    args.parseArguments(3, const_cast<char**>(av));
    return n == 9007199254740993L ? 0 : 10;
}
