// Files: what is written is read again, whatever happened on the way, or the
// failure is reported.
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

#include <string>
#include <vector>

#include "cartographer/io/file_writer.h"
#include "cartographer/io/proto_stream.h"
#include "cartographer/mapping/proto/trajectory.pb.h"
#include "mc.h"

namespace {

using cartographer::io::FileWriter;
using cartographer::io::ProtoStreamReader;
using cartographer::io::ProtoStreamWriter;
using cartographer::io::StreamFileWriter;
using cartographer::mapping::proto::Trajectory;

// A file in memory, which has a name.
class File {
 public:
  File() : fd_(memfd_create("scratch", 0)) {
    MC_CHECK(fd_ >= 0, "no file");
    name_ = "/proc/self/fd/" + std::to_string(fd_);
  }
  ~File() { close(fd_); }
  const std::string& name() const { return name_; }
  std::string contents() const {
    struct stat s;
    fstat(fd_, &s);
    std::string data(s.st_size, '\0');
    size_t done = 0;
    while (done < data.size()) {
      const ssize_t n = pread(fd_, &data[done], data.size() - done, done);
      MC_CHECK(n > 0, "cannot read");
      done += n;
    }
    return data;
  }
  void set_contents(const std::string& data) {
    MC_CHECK(ftruncate(fd_, 0) == 0, "cannot truncate");
    size_t done = 0;
    while (done < data.size()) {
      const ssize_t n = pwrite(fd_, &data[done], data.size() - done, done);
      MC_CHECK(n > 0, "cannot write");
      done += n;
    }
  }

 private:
  int fd_;
  std::string name_;
};

// No file grows beyond 'bytes': the disk is full.
class Full {
 public:
  explicit Full(const size_t bytes) {
    signal(SIGXFSZ, SIG_IGN);
    getrlimit(RLIMIT_FSIZE, &old_);
    struct rlimit limit = old_;
    limit.rlim_cur = bytes;
    MC_CHECK(setrlimit(RLIMIT_FSIZE, &limit) == 0, "no limit");
  }
  ~Full() { setrlimit(RLIMIT_FSIZE, &old_); }

 private:
  struct rlimit old_;
};

// Messages of different sizes (0 is an empty one).
Trajectory Message(const int kind) {
  Trajectory message;
  const int num[] = {0, 1, 3, 40, 900};
  uint32_t x = 12345 + kind;
  for (int i = 0; i < num[kind]; ++i) {
    auto* const node = message.add_node();
    x = x * 1664525 + 1013904223;
    node->set_timestamp(x);
    node->mutable_pose()->mutable_translation()->set_x(x * 1e-3);
  }
  if (kind > 0) message.set_trajectory_id(kind);
  return message;
}
bool Same(const Trajectory& a, const Trajectory& b) {
  return a.SerializeAsString() == b.SerializeAsString();
}

struct Written {
  std::vector<Trajectory> messages;
  std::vector<size_t> end;  // of each message in the file
  std::string contents;
};

std::vector<int> ChooseKinds(const int max_messages, const int num_kinds) {
  std::vector<int> kinds;
  while (static_cast<int>(kinds.size()) < max_messages) {
    const int kind = mc::choose(num_kinds + 1);
    if (kind == 0) break;
    kinds.push_back(kind - 1);
  }
  return kinds;
}

// Writes messages without faults, and finds out where each of them ends.
Written Write(const std::vector<int>& kinds, const std::string& old = "") {
  Written result;
  for (size_t n = 0; n <= kinds.size(); ++n) {
    File file;
    file.set_contents(old);
    ProtoStreamWriter writer(file.name());
    for (size_t i = 0; i < n; ++i) writer.WriteProto(Message(kinds[i]));
    MC_CHECK(writer.Close(), "writing failed");
    result.contents = file.contents();
    if (n > 0) {
      result.end.push_back(result.contents.size());
      result.messages.push_back(Message(kinds[n - 1]));
    } else {
      MC_CHECK(result.contents.size() == 8, "an empty stream has " << result.contents.size());
    }
    mc::step();
  }
  return result;
}

void CheckReads(const File& file, const std::vector<Trajectory>& expected) {
  ProtoStreamReader reader(file.name());
  for (size_t i = 0; i < expected.size(); ++i) {
    MC_CHECK(!reader.eof(), "end of file before message " << i);
    Trajectory message;
    message.set_trajectory_id(77);  // leftovers have to disappear
    MC_CHECK(reader.ReadProto(&message), "message " << i << " cannot be read");
    MC_CHECK(Same(message, expected[i]), "message " << i << " was changed");
    mc::step();
  }
  for (int i = 0; i < 2; ++i) {
    Trajectory message;
    MC_CHECK(!reader.ReadProto(&message), "read a message that was not written");
    MC_CHECK(reader.eof(), "not at the end of the file");
  }
}

void RoundTrip() {
  const auto kinds = ChooseKinds(mc::thorough() ? 5 : 3, 5);
  // There may be a file of this name already.
  const std::string old = mc::flip() ? std::string(100000, 'x') : "";
  const Written written = Write(kinds, old);
  File file;
  file.set_contents(written.contents);
  CheckReads(file, written.messages);
}

// The writer was killed: any prefix of the file may be there.
void Truncated(const int num_kinds, const int max_messages) {
  const auto kinds = ChooseKinds(max_messages, num_kinds);
  const Written written = Write(kinds);
  const size_t size = 8 + mc::choose(written.contents.size() - 8 + 1);
  MC_LOG("truncated after " << size << " of " << written.contents.size() << " bytes");
  std::vector<Trajectory> expected;
  for (size_t i = 0; i < kinds.size() && written.end[i] <= size; ++i) {
    expected.push_back(written.messages[i]);
  }
  File file;
  file.set_contents(written.contents.substr(0, size));
  CheckReads(file, expected);
}

// The disk is full at any point.
void FullDisk(const int num_kinds, const int max_messages) {
  const auto kinds = ChooseKinds(max_messages, num_kinds);
  const Written written = Write(kinds);
  const size_t limit = mc::choose(written.contents.size() + 2);
  MC_LOG("no space after " << limit << " of " << written.contents.size() << " bytes");
  File file;
  bool closed;
  {
    Full full(limit);
    ProtoStreamWriter writer(file.name());
    for (const int kind : kinds) writer.WriteProto(Message(kind));
    closed = writer.Close();
  }
  const std::string contents = file.contents();
  MC_CHECK(written.contents.compare(0, contents.size(), contents) == 0,
           "not a prefix of the file");
  MC_CHECK(closed == (limit >= written.contents.size()),
           "Close() returned " << closed << " with " << contents.size() << " of "
                               << written.contents.size() << " bytes");
  if (closed) MC_CHECK(contents.size() == written.contents.size(), "incomplete");
}

void CannotOpen() {
  const std::string name = "/nonexistent-directory/file";
  if (mc::flip()) {
    ProtoStreamWriter writer(name);
    for (const int kind : ChooseKinds(2, 5)) writer.WriteProto(Message(kind));
    MC_CHECK(!writer.Close(), "a file that cannot be opened was written");
  } else {
    StreamFileWriter writer(name);
    const int num = mc::choose(3);
    for (int i = 0; i < num; ++i) {
      MC_CHECK(!(mc::flip() ? writer.Write("abc", 3) : writer.WriteHeader("abc", 3)),
               "wrote to a file that cannot be opened");
    }
    MC_CHECK(!writer.Close(), "a file that cannot be opened was written");
  }
  mc::step();
}

std::string Pattern(const int seed, const size_t size) {
  std::string data;
  for (size_t i = 0; i < size; ++i) data.push_back('a' + (seed * 7 + i * 3) % 26);
  return data;
}

// The header is written first, data is appended, and finally the header is
// written again.
void StreamFile(const std::vector<size_t>& sizes, const int max_writes, const bool faults) {
  const size_t header_size = mc::pick(std::vector<size_t>{0, 4, 11});
  std::string expected = Pattern(0, header_size);
  std::vector<std::string> chunks;
  while (static_cast<int>(chunks.size()) < max_writes) {
    const int choice = mc::choose(sizes.size() + 1);
    if (choice == 0) break;
    chunks.push_back(Pattern(chunks.size() + 1, sizes[choice - 1]));
    expected += chunks.back();
  }
  const bool rewrite = mc::flip();
  const std::string new_header = Pattern(9, header_size);
  if (rewrite) expected.replace(0, header_size, new_header);
  const size_t limit = faults ? mc::choose(expected.size() + 2) : expected.size();
  if (faults) MC_LOG("no space after " << limit << " of " << expected.size() << " bytes");
  File file;
  if (!faults && mc::flip()) file.set_contents(std::string(100000, 'x'));
  bool ok = true;
  {
    Full full(limit);
    StreamFileWriter writer(file.name());
    MC_CHECK(writer.GetFilename() == file.name(), "file name");
    const std::string header = Pattern(0, header_size);
    ok = writer.Write(header.data(), header.size()) && ok;
    for (const std::string& chunk : chunks) {
      ok = writer.Write(chunk.data(), chunk.size()) && ok;
      mc::step();
    }
    if (rewrite) ok = writer.WriteHeader(new_header.data(), new_header.size()) && ok;
    ok = writer.Close() && ok;
  }
  const std::string contents = file.contents();
  if (limit >= expected.size()) {
    MC_CHECK(ok, "writing failed");
    MC_CHECK(contents == expected, "file has " << contents.size() << " bytes, expected "
                                               << expected.size());
  } else {
    MC_CHECK(!ok, "no failure was reported, but only " << contents.size() << " of "
                                                        << expected.size()
                                                        << " bytes were written");
  }
}

}  // namespace

int main(int argc, char** argv) {
  std::vector<mc::Scenario> scenarios;
  scenarios.push_back({"round_trip", RoundTrip, 3, UINT64_MAX,
                       "up to 3 (thorough: 5) messages of 5 sizes"});
  scenarios.push_back({"truncated", [] { Truncated(3, mc::thorough() ? 4 : 3); }, 3, UINT64_MAX,
                       "up to 3 (4) small messages, truncated after every byte"});
  scenarios.push_back({"truncated_large", [] { Truncated(5, mc::thorough() ? 2 : 1); }, 3, UINT64_MAX,
                       "1 (2) messages, larger ones included, truncated after every byte"});
  scenarios.push_back({"full", [] { FullDisk(3, mc::thorough() ? 4 : 3); }, 3, UINT64_MAX,
                       "up to 3 (4) small messages, writing fails after every byte"});
  scenarios.push_back({"full_large", [] { FullDisk(5, mc::thorough() ? 2 : 1); }, 3, UINT64_MAX,
                       "1 (2) messages, larger ones included, writing fails after every byte"});
  scenarios.push_back({"cannot_open", CannotOpen, 3, UINT64_MAX, "file that cannot be created"});
  scenarios.push_back({"stream_file", [] { StreamFile({0, 1, 5, 8192, 20000}, mc::thorough() ? 5 : 4, false); }, 3,
                       UINT64_MAX, "header and up to 4 (5) chunks of 5 sizes"});
  scenarios.push_back({"stream_file_full", [] { StreamFile({1, 7, 40}, 3, true); }, 3, UINT64_MAX,
                       "header and up to 3 small chunks, writing fails after every byte"});
  scenarios.push_back({"stream_file_full_large", [] { StreamFile({3, 9000}, 2, true); }, 3,
                       UINT64_MAX,
                       "header and up to 2 chunks larger than the buffer, writing fails after every byte"});
  return mc::Main(argc, argv, scenarios,
                  {"explicit enumeration of histories and fault points",
                   {"a full disk is simulated by the file size limit of the process"}});
}
