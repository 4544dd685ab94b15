// Both names of the help option are given to options that are not the help option:
// parseArguments then returns at once and parses nothing.
// exit status 10: it still does
#include "blet/args.h"

int main() {
    blet::Args args;
    const char* flags[] = {"-h", "--host"};
    args.addArgument(flags);
    args.addArgument("--help").action(args.STORE_TRUE);
    const char* av[] = {"prog", "-h", "localhost", "more"};
    args.parseArguments(4, const_cast<char**>(av));
    const bool silent = !args["-h"].isExists() && args.getAdditionalArguments().empty();
    return silent ? 10 : 0;
}
