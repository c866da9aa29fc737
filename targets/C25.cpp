// C25: the generated version header describes the state of the git repository.
#include "pbt.h"
#include <ftw.h>
PBT_PROPERTY("C25",
             "histories of commits by various authors, lightweight and annotated tags, branches created and switched, detached heads, modified, added and untracked files, clean-ups and lost headers in a scratch repository, "
             "with builds (the watcher script of the repository run as the build does) at random points; after each build the header is compiled in two translation units and its answers are compared with the model "
             "of the repository; non-trivial: a build after a change that follows an earlier build")

static std::string repo() { const char *r = getenv("VERIF_REPO"); return r ? r : "/repo"; }
static int rmcb(const char *p, const struct stat *, int, struct FTW *) { return ::remove(p); }
struct Scratch {
  std::string d;
  Scratch() {
    char t[] = "/tmp/verif-version-XXXXXX";
    if (!mkdtemp(t)) { perror("mkdtemp"); _exit(97); }
    d = t;
  }
  ~Scratch() { nftw(d.c_str(), rmcb, 32, FTW_DEPTH | FTW_PHYS); }
};
static std::string sh(const std::string &cmd, int *rc = nullptr) {
  FILE *f = popen(("( " + cmd + " ) 2>/dev/null").c_str(), "r");
  std::string o;
  char b[4096];
  size_t n;
  while (f && (n = fread(b, 1, sizeof b, f)) > 0) o.append(b, n);
  int st = f ? pclose(f) : -1;
  if (rc) *rc = st;
  while (!o.empty() && o.back() == '\n') o.pop_back();
  return o;
}
struct Author { const char *name, *mail; };
static const Author AUTHORS[] = {{"Ada Lovelace", "ada@example.org"}, {"Zoe Fran\xc3\xa7ois", "zoe@example.org"}, {"Conor O'Brien", "c.obrien+git@example.org"}, {"John \"JD\" Doe", "jd@example.org"}, {"X", "x@y.z"}};

static std::string q(const std::string &s) { std::string r = "'"; for (char c: s) { if (c == '\'') r += "'\\''"; else r += c; } return r + "'"; }

TARGET_FORK(history, 60) {
  Scratch w;
  std::string R = w.d + "/repo", B = w.d + "/build/MathUtils";
  std::string pre = "export HOME=" + w.d + " GIT_CONFIG_GLOBAL=/dev/null GIT_CONFIG_NOSYSTEM=1 LC_ALL=C.UTF-8; unset GIT_DIR GIT_WORK_TREE GIT_INDEX_FILE; cd " + R + " && ";
  sh("mkdir -p " + R + " " + B);
  sh(pre + "git init -q -b main . && git config user.name nobody && git config user.email nobody@example.org && git config core.hooksPath /dev/null");
  int commits = 0, builds = 0, files = 0;
  std::string author, mail, date;
  std::vector<std::string> branches{"main"};
  auto commit = [&]() {
    const Author &a = AUTHORS[s.draw(5)];
    author = a.name;
    mail = a.mail;
    char dt[64];
    snprintf(dt, sizeof dt, "20%02d-0%d-1%d 0%d:2%d:0%d +0%d00", (int) s.integer(10, 25), (int) s.integer(1, 9), (int) s.integer(0, 9), (int) s.integer(0, 9), (int) s.integer(0, 9), (int) s.integer(0, 9), (int) s.integer(0, 3));
    date = dt;
    std::string f = "f" + std::to_string(files++);
    sh(pre + "echo " + f + " > " + f + " && git add -A && GIT_AUTHOR_NAME=" + q(author) + " GIT_AUTHOR_EMAIL=" + q(mail) + " GIT_AUTHOR_DATE=" + q(date) + " GIT_COMMITTER_DATE=" + q(s.boolean() ? date : "2026-01-02 03:04:05 +0500") + " git commit -q -m 'commit " + f + "'");
    ++commits;
    s.desc << "commit by " << author << "; ";
  };
  commit();
  bool dirty = false, changed = true, lost = false;
  auto build = [&]() {
    s.desc << "build; ";
    std::string cm = "cmake -D_BUILD_TIME_CHECK_GIT=TRUE -DGIT_WORKING_DIR=" + R + " -DGIT_EXECUTABLE=$(command -v git) -DGIT_STATE_FILE=" + w.d + "/build/git-state-hash -DPRE_CONFIGURE_FILE=" + repo() +
                     "/src/MathUtils/version.h.in -DPOST_CONFIGURE_FILE=" + B + "/version.h -DPROJECT_NAME=MathUtils -P " + repo() + "/cmake/git_watcher.cmake";
    int rc;
    sh(pre + cm, &rc);
    CHECK(rc == 0, "the watcher script failed");
    std::string m = w.d + "/m.cpp", o = w.d + "/o.cpp", x = w.d + "/x";
    std::ofstream(m) << "#include <MathUtils/version.h>\n#include <cstdio>\nstd::string other();\nint main() { using namespace mathutils::git;\n"
                        "printf(\"%d|%d|%s|%s|%s|%s|%s|%s|%s|%s|%s\\n\", (int) IsPopulated(), (int) AnyUncommittedChanges(), AuthorName().c_str(), AuthorEmail().c_str(), CommitSHA1().c_str(), CommitDate().c_str(), LastTag().c_str(), "
                        "CurrentBranch().c_str(), GetNormalizedVersionString().c_str(), ProjectName().c_str(), other().c_str()); }\n";
    std::ofstream(o) << "#include <MathUtils/version.h>\nstd::string other() { return mathutils::git::CommitSHA1(); }\n";
    sh("g++ -std=c++17 -O0 -w -I" + w.d + "/build " + m + " " + o + " -o " + x, &rc);
    CHECK(rc == 0, "a program of two translation units that include the header does not build");
    std::string got = sh(x);
    std::string sha = sh(pre + "git rev-parse HEAD"), branch = sh(pre + "git symbolic-ref --short -q HEAD"), an = sh(pre + "git log -1 --format=%an"), ae = sh(pre + "git log -1 --format=%ae"), cd = sh(pre + "git log -1 --format=%ci");
    std::string tag = sh(pre + "git describe --tags HEAD", &rc);
    bool tagged = rc == 0;
    if (!tagged) tag = "None";
    std::string d2 = cd;
    std::replace(d2.begin(), d2.end(), ' ', '_');
    std::string norm = tag + (branch.empty() ? "" : "_" + branch) + "_" + d2 + (dirty ? "_DIRTY" : "");
    std::string rest = std::string(dirty ? "1" : "0") + "|" + an + "|" + ae + "|" + sha + "|" + cd + "|" + tag + "|" + branch + "|" + norm + "|MathUtils|" + sha;
    CHECK(got.size() > 2 && got.substr(2) == rest, "the header says " << got.substr(std::min<size_t>(2, got.size())) << " but the repository is " << rest);
    if (tagged) CHECK(got[0] == '1', "the header says that it is not populated");
    if (builds > 0 && changed) s.nontrivial();
    if (s.chance(30)) {  // nothing changed: the header is not rewritten, so that nothing is compiled again
      sh("touch -d @1000000000 " + B + "/version.h");
      sh(pre + cm, &rc);
      CHECK(rc == 0, "the watcher script failed");
      CHECK(sh("stat -c %Y " + B + "/version.h") == "1000000000", "the header was rewritten although the repository did not change");
      s.label("build without change");
    }
    ++builds;
    changed = lost = false;
  };
  int steps = (int) s.integer(2, 7), tags = 0;
  for (int k = 0; k < steps; ++k) {
    switch (s.draw(8)) {
      case 0: commit(); dirty = false; changed = true; break;  // git add -A: everything is committed
      case 1: {
        std::string t = "v" + std::to_string(++tags) + ".0";
        sh(pre + (s.boolean() ? "git tag " + t : "git tag -a -m tag " + t));
        s.desc << "tag " << t << "; ";
        changed = true;
        break;
      }
      case 2: {
        std::string b = s.boolean() ? "feature/x" + std::to_string(branches.size()) : "b" + std::to_string(branches.size());
        sh(pre + "git checkout -q -b " + b);
        branches.push_back(b);
        s.desc << "new branch " << b << "; ";
        changed = true;
        break;
      }
      case 3: {
        sh(pre + "git reset -q --hard && git clean -fdq");
        dirty = false;
        const std::string &b = branches[s.draw(branches.size())];
        sh(pre + "git checkout -q " + b);
        s.desc << "checkout " << b << "; ";
        changed = true;
        break;
      }
      case 4: sh(pre + "git checkout -q --detach"); s.desc << "detach; "; changed = true; break;
      case 5: {
        int how = (int) s.draw(3);
        sh(pre + (how == 0 ? "echo more >> f0" : how == 1 ? "echo new" + std::to_string(k) + " > untracked" : "echo new" + std::to_string(k) + " > added && git add added"));
        dirty = true;
        s.desc << (how == 0 ? "modify; " : how == 1 ? "untracked file; " : "staged file; ");
        changed = true;
        break;
      }
      case 6: sh(pre + "git reset -q --hard && git clean -fdq"); dirty = false; s.desc << "clean; "; changed = true; break;
      default: sh("rm -f " + B + "/version.h"); lost = true; s.desc << "header lost; "; build();
    }
    if (s.chance(50)) build();
  }
  if (builds == 0 || changed) build();
}
