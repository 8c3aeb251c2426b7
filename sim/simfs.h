// File-system side of the simulator: what harnesses use.
#pragma once
#include <string>
#include <vector>
#include <sys/stat.h>
namespace sim {
struct FsOp {
    enum K { CREATE, TRUNC, WRITE, FSYNC, DIRSYNC, UNLINK, RENAME } k;
    std::string a, b;
    long off;
    std::string data;
    unsigned long ino = 0;                             // the file itself, whatever its name
};
struct FsLog { std::vector<FsOp> ops; bool on = false; void op(FsOp o) { if (on) ops.push_back(std::move(o)); } };
FsLog& fsLog();
void fsInit();                                     // creates the scratch area behind /sim
void fsProcNet();                                  // /proc/net/ and /proc/sys/net/ are those of /sim/proc
void fsProcPid();                                  // /proc/<pid>/ and /proc/sys/kernel/ too
std::string fsReal(const std::string& p);
std::vector<std::string> fsOutsiders();              // files made by the name_taken fault
int ioOpenFds();                                        // open eventfds and epolls
int fsOpenFds();
bool fsExists(const std::string& p);
bool fsStat(const std::string& p, struct stat* st);
void fsWriteFile(const std::string& p, const std::string& data, int mode = 0644);
bool fsReadFile(const std::string& p, std::string* out);
void fsMkdir(const std::string& p);
void fsSymlink(const std::string& target, const std::string& at);
bool fsUnlink(const std::string& p);
bool fsRmdir(const std::string& p);
std::vector<std::string> fsTree(const std::string& p);
}
