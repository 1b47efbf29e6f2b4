// Stands in for sleep, systemctl, mkdir and mv: writes down what it is asked
// for and what the daemon's files hold at that moment.
#include <dirent.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>

static char jail[2048];
static const char* under(const char* p, char* buf, size_t n)
{
    if (p[0] == '/' && strncmp(p, jail, strlen(jail))) snprintf(buf, n, "%s%s", jail, p);
    else snprintf(buf, n, "%s", p);
    return buf;
}
static void show(FILE* f, const char* path)
{
    FILE* g = fopen(path, "r");
    int ch;
    if (!g) return;
    while ((ch = fgetc(g)) != EOF)
        if (ch == '\n') fputs("\\n", f);
        else if (ch > 32 && ch < 127) fputc(ch, f);
        else fprintf(f, "\\x%02x", ch);
    fclose(g);
}
int main(int argc, char** argv)
{
    char buf[4200], buf2[4200];
    snprintf(jail, sizeof jail, "%s", getenv("VP_JAIL") ? getenv("VP_JAIL") : "/nonexistent");
    snprintf(buf, sizeof buf, "%s/trace", jail);
    FILE* f = fopen(buf, "a");
    if (!f) return 125;
    const char* me = strrchr(argv[0], '/');
    me = me ? me + 1 : argv[0];
    fputs(me, f);
    for (int i = 1; i < argc; i++) fprintf(f, " %s", argv[i]);
    fputc('|', f);
    snprintf(buf, sizeof buf, "%s/etc/thermal.d", jail);
    DIR* d = opendir(buf);
    struct dirent* e;
    while (d && (e = readdir(d)))
        if (e->d_name[0] != '.')
        {
            snprintf(buf, sizeof buf, "%s/etc/thermal.d/%s", jail, e->d_name);
            fprintf(f, "%s=", e->d_name);
            show(f, buf);
            fputc('|', f);
        }
    if (d) closedir(d);
    fputc('\n', f);
    fclose(f);
    if (!strcmp(me, "mkdir"))
    {
        for (int i = 1; i < argc; i++)
            if (argv[i][0] != '-')
            {
                under(argv[i], buf, sizeof buf);
                for (char* s = buf + strlen(jail) + 1; *s; s++)
                    if (*s == '/') *s = 0, mkdir(buf, 0777), *s = '/';
                mkdir(buf, 0777);
            }
    }
    else if (!strcmp(me, "mv") && argc >= 3)
        return rename(under(argv[argc - 2], buf, sizeof buf), under(argv[argc - 1], buf2, sizeof buf2)) ? 1 : 0;
    else if (!strcmp(me, "systemctl") && argc >= 3 && !strcmp(argv[1], "start"))
    { // the daemon of this run writes its log
        static struct stat st;
        snprintf(buf, sizeof buf, "%s/trace", jail);
        stat(buf, &st);
        snprintf(buf2, sizeof buf2, "%s/tmp/swampd.log", jail);
        FILE* l = fopen(buf2, "a");
        if (l) fprintf(l, "run at %ld\n", (long)st.st_size), fclose(l);
    }
    return 0;
}
