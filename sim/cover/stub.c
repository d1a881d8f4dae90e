// Stands in for the test runner ("cargo") and the report generator ("grcov"). What it does is decided by the plan:
//   SIM_CARGO   profiles:how:at   writes that many raw profiles; how = ok | fail | sig | killparent, at = after this many profiles
//   SIM_GRCOV   version:report    each ok | fail | sig | killparent | partial
#define _GNU_SOURCE
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static void say(const char *fmt, ...) {
    char b[8192];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b - 1, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof b - 2) n = sizeof b - 2;
    b[n++] = '\n';
    int fd = open(getenv("SIM_LOG"), O_WRONLY | O_APPEND);
    if (fd >= 0) { if (write(fd, b, n) < 0) {} close(fd); }
}

static void put(const char *path, const char *text) {
    int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) { say("stub-error %s", path); exit(9); }
    if (write(fd, text, strlen(text)) < 0) {}
    close(fd);
    say("wrote %s", path);
}

static void bad(const char *how) {
    say("stub %s", how);
    if (!strcmp(how, "fail")) exit(1);
    if (!strcmp(how, "partial")) exit(1);
    if (!strcmp(how, "fail101")) exit(101);
    if (!strcmp(how, "killparent")) { kill(getppid(), SIGKILL); exit(0); }
    signal(SIGTERM, SIG_DFL);
    if (!strcmp(how, "term")) kill(getpid(), SIGTERM);
    kill(getpid(), SIGKILL);
    for (;;) pause();
}

static void expand(char *out, const char *pat, int i) {
    for (; *pat; pat++) {
        if (*pat == '%' && pat[1] == 'p') { out += sprintf(out, "%d", 4000 + i); pat++; }
        else if (*pat == '%' && pat[1] == 'm') { out += sprintf(out, "%d_0", 77000 + i / 2); pat++; }
        else if (*pat == '%' && pat[1] && strchr("htc", pat[1])) { out += sprintf(out, "h"); pat++; }
        else *out++ = *pat;
    }
    *out = 0;
}

static int cmpstr(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }

static void list(const char *dir) {
    struct dirent *e;
    char *names[512];
    int n = 0;
    DIR *d = opendir(dir);
    if (!d) return;
    while ((e = readdir(d)) && n < 512)
        if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) names[n++] = strdup(e->d_name);
    closedir(d);
    qsort(names, n, sizeof *names, cmpstr);
    for (int i = 0; i < n; i++) {
        char p[4096];
        struct stat st;
        snprintf(p, sizeof p, "%s/%s", dir, names[i]);
        if (lstat(p, &st)) continue;
        if (S_ISDIR(st.st_mode)) list(p);
        else if (strlen(p) > 8 && !strcmp(p + strlen(p) - 8, ".profraw")) say("sees %s", strncmp(p, "./", 2) ? p : p + 2);
    }
}

static int cargo(int argc, char **argv) {
    int test = 0;
    for (int i = 1; i < argc; i++) test |= !strcmp(argv[i], "test") || !strcmp(argv[i], "t") || !strcmp(argv[i], "nextest");
    if (!test) { say("cargo other"); return 0; }
    int n = 0, at = 0;
    char how[32] = "ok";
    sscanf(getenv("SIM_CARGO"), "%d:%31[^:]:%d", &n, how, &at);
    say("cargo begin");
    const char *flags = getenv("RUSTFLAGS"), *pat = getenv("LLVM_PROFILE_FILE");
    if (!flags || !strstr(flags, "instrument-coverage")) n = 0;
    if (!pat) pat = "default_%m_%p.profraw";
    mkdir("target", 0755); mkdir("target/debug", 0755); mkdir("target/debug/deps", 0755);
    put("target/debug/deps/succinct_neo-1234", "binary");
    for (int i = 0; i <= n; i++) {
        if (strcmp(how, "ok") && i == at) bad(how);
        if (i == n) break;
        char name[2048], path[4096], text[64];
        expand(name, pat, i);
        snprintf(path, sizeof path, "%s%s", name[0] == '/' ? "" : "succinct_neo/", name);
        snprintf(text, sizeof text, "profile %d", i);
        say("profile %d", i);
        put(path, text);
    }
    if (strcmp(how, "ok")) bad(how);
    say("cargo ok");
    return 0;
}

static int grcov(int argc, char **argv) {
    char version[32] = "ok", report[32] = "ok";
    sscanf(getenv("SIM_GRCOV"), "%31[^:]:%31s", version, report);
    const char *fmt = "lcov", *out = 0, *from[64];
    static const char *plain[] = {"--branch", "--ignore-not-existing", "--llvm", "--guess-directory-when-missing", "--no-demangle", "--parallel", 0};
    int froms = 0;
    for (int i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--version") || !strcmp(argv[i], "-V")) {
            say("grcov version");
            if (strcmp(version, "ok")) bad(version);
            return 0;
        }
        if ((!strcmp(argv[i], "-t") || !strcmp(argv[i], "--output-type") || !strcmp(argv[i], "--output-types")) && i + 1 < argc) fmt = argv[i + 1];
        if ((!strcmp(argv[i], "-o") || !strcmp(argv[i], "--output-path")) && i + 1 < argc) out = argv[i + 1];
    }
    // what is not an option or its value says where to look for raw profiles
    for (int i = 1; i < argc; i++) {
        if (argv[i][0] != '-') { if (froms < 64) from[froms++] = argv[i]; continue; }
        int alone = strchr(argv[i], '=') != 0;
        for (int k = 0; plain[k]; k++) alone |= !strcmp(argv[i], plain[k]);
        if (!alone) i++;
    }
    say("grcov begin %s %s", fmt, out ? out : "-");
    for (int i = 0; i < froms; i++) {
        char dir[2048];
        snprintf(dir, sizeof dir, "%s", from[i]);
        while (strlen(dir) > 1 && dir[strlen(dir) - 1] == '/') dir[strlen(dir) - 1] = 0;
        list(dir);
    }
    if (!strcmp(report, "fail")) bad("fail");
    if (out) put(out, "<part");
    if (strcmp(report, "ok")) bad(report);
    char text[256];
    snprintf(text, sizeof text, "<complete %s report>", fmt);
    if (out) put(out, text);
    say("grcov ok");
    return 0;
}

int main(int argc, char **argv) {
    const char *b = strrchr(argv[0], '/');
    b = b ? b + 1 : argv[0];
    return !strncmp(b, "cargo", 5) ? cargo(argc, argv) : grcov(argc, argv);
}
