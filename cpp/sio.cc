// podio's SIO backend on top of a stand-in for the SIO library, and the generic Reader and Writer on top of it and of memory backends
// that stand in for the ROOT ones (C23, C24)
#include "store.h"
#include "podio/Reader.h"
#include "podio/SIOLegacyReader.h"
#include "podio/SIOReader.h"
#include "podio/SIOWriter.h"
#include "podio/Writer.h"
#include "podio/RNTupleReader.h"
#include "podio/ROOTReader.h"
#include "sioUtils.h"
#include <filesystem>
#include <unistd.h>
#ifdef WITH_DUMP
  #include <algorithm>
  #include <cstdlib>
  #include <fmt/core.h>
  #include <fmt/ostream.h>
  #include <fmt/ranges.h>
  #include <iostream>
  #include <numeric>
  #include <ranges>
  #include <tuple>
  #if FMT_VERSION < 100000 // the tool wants a newer version
namespace fmt {
template <typename... T>
void println(format_string<T...> f, T&&... a) {
  print("{}\n", format(f, std::forward<T>(a)...));
}
template <typename... T>
void println(FILE* s, format_string<T...> f, T&&... a) {
  print(s, "{}\n", format(f, std::forward<T>(a)...));
}
} // namespace fmt
  #endif
struct DumpExit {
  int rc;
};
namespace std {
[[noreturn]] inline void dumpToolExit(int rc) { throw DumpExit{rc}; }
} // namespace std
using std::dumpToolExit;
  #define exit dumpToolExit
  #define main dumpToolMain
  #include "../tools/src/podio-dump-tool.cpp"
  #undef main
  #undef exit
#endif
using namespace wm;

namespace {
struct Dir {
  std::string d;
  Dir() : d(std::filesystem::current_path().string() + "/sioXXXXXX") { REQUIRE(mkdtemp(d.data()), "no scratch directory"); }
  ~Dir() { std::filesystem::remove_all(d); }
};
struct Entry {
  std::shared_ptr<FrameWorld> w;
  std::vector<std::string> names;
};
using Content = std::map<std::string, std::vector<Entry>>;

std::shared_ptr<FrameWorld> newWorld(Case& c, size_t colls, size_t objs) {
  auto w = std::make_shared<FrameWorld>(c);
  w->plainNames = true; // names of blocks and records are identifiers in SIO
  w->populate(colls, objs, 15, c.chance(1, 3));
  w->putAll(12);
  w->addUserData(2);
  w->addParameters(3);
  return w;
}
std::string category(Case& c) {
  switch (c.draw(5)) {
  case 0:
    return podio::Category::Event;
  case 1:
    return podio::Category::Run;
  case 2:
    return podio::Category::Metadata;
  case 3: // names that look like others
    return c.pick(std::vector<std::string>{"event", "evens", "evntss", "eventss", "Events", "run", "runz", "rusn", "metadat", "metabase"});
  default:
    return c.ident(3);
  }
}
/// what a reader should know about the models of all that was written
struct Defs {
  podio::DatamodelDefinitionCollector coll;
  void add(const FrameWorld& w, const std::vector<std::string>& names) {
    for (auto& n : names) coll.registerDatamodelDefinition(w.frame->get(n), n);
  }
  template <typename R>
  void check(const R& r) const {
    auto got = r.getAvailableDatamodels();
    std::vector<std::string> want;
    for (const auto& [n, def] : coll.getDatamodelDefinitionsToWrite()) {
      want.push_back(n);
      REQUIRE(r.getDatamodelDefinition(n) == def, "the definition of the model " << n << " differs");
      REQUIRE(r.currentFileVersion(n) == podio::DatamodelRegistry::instance().getDatamodelVersion(n), "the version of the model " << n << " differs");
    }
    std::sort(got.begin(), got.end());
    std::sort(want.begin(), want.end());
    REQUIRE(got == want, "the file tells other models than the ones of its collections");
    REQUIRE(!r.currentFileVersion("no such model").has_value(), "a version for an unknown model");
  }
};
/// what was written, frame by frame
template <typename Wr>
void writeSome(Case& c, Wr& writer, Content& content, Defs& defs, size_t maxFrames, std::vector<std::string>& cats) {
  const size_t n = c.below(maxFrames + 1);
  for (size_t i = 0; i < n; ++i) {
    Entry e;
    const auto cat = c.pick(cats);
    if (!content.empty() && c.chance(1, 8)) {
      // a frame that has been written already
      auto it = content.begin();
      std::advance(it, long(c.below(content.size())));
      e.w = c.pick(it->second).w;
      c.label("frame written twice");
    } else {
      e.w = newWorld(c, 4, 4);
    }
    if (c.flip()) {
      e.names = e.w->frameNames();
      writer.writeFrame(*e.w->frame, cat);
    } else {
      e.names = e.w->someNames(4);
      c.log("write ", e.names.size(), " collections to ", cat);
      writer.writeFrame(*e.w->frame, cat, e.names);
    }
    if (c.chance(1, 12)) {
      auto names = e.names;
      names.insert(names.begin() + long(c.below(names.size() + 1)), "not there");
      REQUIRE_THROWS_AS(writer.writeFrame(*e.w->frame, cat, names), std::exception, "writing a collection that is not there");
      c.label("write of an unknown collection refused");
    }
    defs.add(*e.w, e.names);
    content[cat].push_back(std::move(e));
  }
}
/// reads with a low level reader (null if there is nothing) or with the generic one (exceptions instead)
template <typename R>
struct Access {
  R& r;
  std::shared_ptr<podio::Frame> next(const std::string& cat, const std::vector<std::string>& colls) {
    auto d = r.readNextEntry(cat, colls);
    return d ? std::make_shared<podio::Frame>(std::move(d)) : nullptr;
  }
  std::shared_ptr<podio::Frame> at(const std::string& cat, size_t i, const std::vector<std::string>& colls) {
    auto d = r.readEntry(cat, unsigned(i), colls);
    return d ? std::make_shared<podio::Frame>(std::move(d)) : nullptr;
  }
};
template <>
struct Access<podio::Reader> {
  podio::Reader& r;
  Case& c;
  std::shared_ptr<podio::Frame> next(const std::string& cat, const std::vector<std::string>& colls) {
    const bool event = cat == podio::Category::Event && c.flip();
    if (colls.empty() && r.getEntries(cat) == seen[cat]) {
      REQUIRE_THROWS_AS(event ? r.readNextEvent() : r.readNextFrame(cat), std::exception, "reading beyond the last frame");
      return nullptr;
    }
    auto f = std::make_shared<podio::Frame>(event ? r.readNextEvent(colls) : r.readNextFrame(cat, colls));
    ++seen[cat];
    return f;
  }
  std::shared_ptr<podio::Frame> at(const std::string& cat, size_t i, const std::vector<std::string>& colls) {
    const bool event = cat == podio::Category::Event && c.flip();
    if (i >= r.getEntries(cat)) {
      REQUIRE_THROWS_AS(event ? r.readEvent(i, colls) : r.readFrame(cat, i, colls), std::exception, "reading a frame that is not there");
      return nullptr;
    }
    seen[cat] = i + 1;
    return std::make_shared<podio::Frame>(event ? r.readEvent(i, colls) : r.readFrame(cat, i, colls));
  }
  std::map<std::string, size_t> seen{};
};
template <typename R>
void readSome(Case& c, R& r, Access<R> a, const Content& content, size_t ops, std::vector<std::shared_ptr<FrameWorld>>& kept) {
  std::vector<std::string> cats;
  for (auto& [n, _] : content) cats.push_back(n);
  {
    std::vector<std::string> got;
    for (auto v : r.getAvailableCategories()) got.emplace_back(v);
    std::sort(got.begin(), got.end());
    REQUIRE(got == cats, "the categories of the file differ");
    for (auto& [n, es] : content) REQUIRE(r.getEntries(n) == es.size(), "category " << n << " has " << r.getEntries(n) << " entries instead of " << es.size());
    REQUIRE(r.getEntries("no such category") == 0, "an unknown category has entries");
  }
  std::map<std::string, size_t> pos;
  for (size_t i = 0; i < ops; ++i) {
    if (cats.empty() || c.chance(1, 10)) {
      if (c.flip())
        REQUIRE(!a.next("no such category", {}), "reading from an unknown category");
      else
        REQUIRE(!a.at("no such category", c.below(3), {}), "reading from an unknown category");
      continue;
    }
    const auto cat = c.pick(cats);
    const auto& es = content.at(cat);
    const bool next = c.flip();
    size_t at = next ? pos[cat] : c.below(es.size() + (c.chance(1, 4) ? 3 : 0));
    std::vector<std::string> limit;
    if (at < es.size() && c.chance(1, 3))
      for (auto& n : es[at].names)
        if (c.flip()) limit.push_back(n);
    if (at < es.size() && c.chance(1, 12)) {
      limit.insert(limit.begin() + long(c.below(limit.size() + 1)), "not there");
      REQUIRE_THROWS_AS((void)(next ? a.next(cat, limit) : a.at(cat, at, limit)), std::exception, "asking for a collection that is not there");
      c.label("read of an unknown collection refused");
      // where this leaves the position is nobody's business
      at = c.below(es.size());
      limit.clear();
      c.log("read ", cat, " ", at);
      auto f = a.at(cat, at, {});
      REQUIRE(f, "entry " << at << " of " << cat << " cannot be read after a failure");
      pos[cat] = at + 1;
      continue;
    }
    c.log(next ? "read next of " : "read ", cat, " ", at, limit.empty() ? "" : " limited");
    auto f = next ? a.next(cat, limit) : a.at(cat, at, limit);
    if (at >= es.size()) {
      REQUIRE(!f, "there is an entry " << at << " in " << cat << ", which has " << es.size());
      c.label("read beyond the end");
      if (!next) {
        // back to somewhere
        const size_t b = c.below(es.size());
        REQUIRE(a.at(cat, b, {}), "entry " << b << " of " << cat << " cannot be read after one that does not exist");
        pos[cat] = b + 1;
      }
      continue;
    }
    REQUIRE(f, "entry " << at << " of " << cat << " cannot be read");
    pos[cat] = at + 1;
    auto names = es[at].names;
    if (!limit.empty()) {
      names = limit;
      c.label("limited collections");
    }
    auto rw = std::make_shared<FrameWorld>(FrameWorld::ReadTag{}, *es[at].w, names);
    rw->plainNames = true;
    rw->frame = f;
    if (c.chance(2, 3)) rw->readAll();
    kept.push_back(rw);
    if (at > 0 && names.size() > 1) c.nontrivial();
  }
}
} // namespace

PBT_PROP_NOLEAK(sio_files_give_back_what_was_written) {
  Dir dir;
  std::vector<std::string> cats;
  for (size_t i = 0, n = 1 + c.below(3); i < n; ++i) cats.push_back(category(c));
  Content content;
  Defs defs;
  const std::string file = dir.d + "/a.sio";
  {
    podio::SIOWriter w(file);
    writeSome(c, w, content, defs, 6, cats);
    if (c.flip()) {
      w.finish();
      if (c.flip()) w.finish();
      if (c.chance(1, 4)) {
        auto x = newWorld(c, 2, 2);
        REQUIRE_THROWS_AS(w.writeFrame(*x->frame, "late"), std::exception, "writing to a file that is finished");
      }
    }
  }
  std::vector<std::shared_ptr<FrameWorld>> kept;
  auto r = std::make_unique<podio::SIOReader>();
  r->openFile(file);
  REQUIRE(r->currentFileVersion() == podio::version::build_version, "the file tells another version of podio");
  defs.check(*r);
  const bool drop = c.flip();
  readSome(c, *r, {*r}, content, 2 + c.below(8), kept);
  if (drop) r.reset(); // what was read is complete
  for (auto& k : kept) k->readAll();
  if (c.chance(1, 3)) {
    // what was read, together with new frames, makes another file
    Content again;
    Defs defs2;
    const std::string file2 = dir.d + "/b.sio";
    {
      podio::SIOWriter w(file2);
      for (auto& k : kept) {
        const auto cat = c.pick(cats);
        const auto names = k->someNames(6);
        w.writeFrame(*k->frame, cat, names);
        defs2.add(*k, names);
        again[cat].push_back({k, names});
      }
      writeSome(c, w, again, defs2, 2, cats);
    }
    std::vector<std::shared_ptr<FrameWorld>> kept2;
    podio::SIOReader r2;
    r2.openFile(file2);
    defs2.check(r2);
    readSome(c, r2, {r2}, again, 6, kept2);
    for (auto& k : kept2) k->readAll();
    c.label("file written from what was read");
  }
}

PBT_PROP_NOLEAK(one_sio_reader_opens_files_one_after_another) {
  Dir dir;
  podio::SIOReader r;
  for (size_t i = 0, n = 1 + c.below(3); i < n; ++i) {
    std::vector<std::string> cats;
    for (size_t j = 0, m = 1 + c.below(2); j < m; ++j) cats.push_back(category(c));
    Content content;
    Defs defs;
    const std::string file = dir.d + "/" + std::to_string(i) + ".sio";
    {
      podio::SIOWriter w(file);
      writeSome(c, w, content, defs, 3, cats);
    }
    if (c.chance(1, 6)) REQUIRE_THROWS_AS(r.openFile(dir.d + "/none.sio"), std::exception, "opening a file that does not exist");
    r.openFile(file);
    defs.check(r);
    std::vector<std::shared_ptr<FrameWorld>> kept;
    readSome(c, r, {r}, content, 1 + c.below(4), kept);
    for (auto& k : kept) k->readAll();
    if (i > 0) c.nontrivial();
  }
}

/// files of the time before frames: a record with the collection IDs and the version, and then one per event
PBT_PROP_NOLEAK(legacy_sio_files_can_be_read) {
  Dir dir;
  const std::string file = dir.d + "/legacy.sio";
  auto w = newWorld(c, 4, 4);
  const auto names = w->someNames(6);
  const size_t n = c.below(5);
  const bool toc = c.chance(4, 5);
  const podio::version::Version v{uint16_t(c.below(20)), uint16_t(c.below(20)), uint16_t(c.below(20))};
  {
    sio::ofstream s(file, std::ios::binary);
    std::vector<podio::sio_utils::StoreCollection> colls;
    for (auto& x : names) colls.emplace_back(x, w->frame->getCollectionForWrite(x));
    const auto ids = w->frame->getCollectionIDTableForWrite();
    podio::SIOFileTOCRecord tocRecord;
    sio::block_list head;
    head.push_back(podio::sio_utils::createCollIDBlock(colls, ids));
    head.push_back(std::make_shared<podio::SIOVersionBlock>(v));
    tocRecord.addRecord("collection_and_version", uint32_t(podio::sio_utils::writeRecord(head, "collection_and_version", s)));
    for (size_t i = 0; i < n; ++i) {
      auto pars = w->frame->getParameters();
      pars.set("event number", int(i));
      tocRecord.addRecord("event_record", uint32_t(podio::sio_utils::writeRecord(podio::sio_utils::createBlocks(colls, pars), "event_record", s)));
      if (c.chance(1, 4)) podio::sio_utils::writeRecord({std::make_shared<podio::SIOVersionBlock>(v)}, "something_else", s);
    }
    if (toc) {
      const auto at = uint64_t(podio::sio_utils::writeRecord({std::make_shared<podio::SIOFileTOCRecordBlock>(&tocRecord)}, podio::sio_helpers::SIOTocRecordName, s));
      const uint64_t end = (uint64_t(podio::sio_helpers::SIOTocMarker) << 32) | at;
      s.write(reinterpret_cast<const char*>(&end), sizeof end);
    }
  }
  podio::SIOLegacyReader r;
  r.openFile(file);
  REQUIRE(r.currentFileVersion() == v, "the version of the file differs");
  REQUIRE(r.getAvailableCategories() == std::vector<std::string_view>{"events"}, "categories");
  REQUIRE(r.getEntries("other") == 0, "entries of another category");
  if (toc) REQUIRE(r.getEntries("events") == n, "the file has " << r.getEntries("events") << " instead of " << n << " events");
  REQUIRE(!r.readNextEntry("other") && !r.readEntry("other", 0), "reading another category");
  size_t pos = 0;
  std::vector<std::pair<std::shared_ptr<FrameWorld>, size_t>> kept;
  for (size_t i = 0, ops = 1 + c.below(7); i < ops; ++i) {
    const bool next = !toc || c.flip();
    const size_t at = next ? pos : c.below(n + 2);
    std::unique_ptr<podio::SIOFrameData> d;
    d = next ? r.readNextEntry("events") : r.readEntry("events", unsigned(at));
    if (at >= n) {
      REQUIRE(!d, "there is an event " << at << " of " << n);
      if (next) break; // there is nothing to read any more
      continue;
    }
    REQUIRE(d, "event " << at << " cannot be read");
    pos = at + 1;
    auto rw = std::make_shared<FrameWorld>(FrameWorld::ReadTag{}, *w, names);
    rw->frame = std::make_shared<podio::Frame>(std::move(d));
    rw->intPar["event number"] = {int(at)};
    kept.push_back({rw, at});
    if (c.flip()) rw->readAll();
  }
  for (auto& k : kept) k.first->readAll();
  if (kept.size() > 1 && names.size() > 1) c.nontrivial();
}

PBT_PROP_NOLEAK(generic_reader_and_writer_forward_to_backends) {
  Dir dir;
  fakeroot::files().clear();
  auto& calls = fakeroot::calls();
  calls = {};
  // which backend
  const std::string stem = c.chance(1, 3) ? dir.d + "/f.sio.root" : dir.d + "/" + c.ident(4);
  const bool sio = c.chance(1, 3);
  const int env = int(c.below(3)); // not set, empty, set
  if (env == 0)
    unsetenv("PODIO_DEFAULT_WRITE_RNTUPLE");
  else
    setenv("PODIO_DEFAULT_WRITE_RNTUPLE", env == 1 ? "" : c.pick(std::vector<std::string>{"1", "0", "no"}).c_str(), 1);
  const std::string type = c.pick(std::vector<std::string>{"default", "default", "root", "ROOT", "Root", "rntuple", "RNTuple", "RNTUPLE"});
  const std::string ext = sio ? ".sio" : ".root";
  const bool rntuple = !sio && (type == "default" ? env == 2 : (type[1] == 'N' || type[1] == 'n'));
  const std::string backend = rntuple ? "rntuple" : "tree";
  // the name of a file that is read in can be a pattern
  const size_t nf = sio ? 1 : 1 + c.below(3);
  std::vector<std::string> files, cats;
  for (size_t i = 0, n = 1 + c.below(3); i < n; ++i) cats.push_back(category(c));
  Content content;
  Defs defs;
  bool same = true; // all files tell the models of the first one only
  for (size_t f = 0; f < nf; ++f) {
    files.push_back(stem + std::to_string(f) + ext);
    const int before = calls.finishes;
    {
      std::optional<podio::Writer> w;
      if (type == "default" && c.flip())
        w.emplace(podio::makeWriter(files.back()));
      else
        w.emplace(podio::makeWriter(files.back(), type));
      Defs other;
      struct W {
        podio::Writer& w;
        Case& c;
        void writeFrame(const podio::Frame& f, const std::string& cat) {
          if (cat == podio::Category::Event && c.flip())
            w.writeEvent(f);
          else
            w.writeFrame(f, cat);
        }
        void writeFrame(const podio::Frame& f, const std::string& cat, const std::vector<std::string>& names) {
          if (cat == podio::Category::Event && c.flip())
            w.writeEvent(f, names);
          else
            w.writeFrame(f, cat, names);
        }
      } fw{*w, c};
      writeSome(c, fw, content, f == 0 ? defs : other, 4, cats);
      if (c.flip()) {
        podio::Writer moved = std::move(*w);
        if (c.flip()) moved.finish();
        w.emplace(std::move(moved));
      }
      if (c.flip()) w->finish();
    }
    if (sio) {
      REQUIRE(calls.written.empty(), "the file " << files.back() << " is not written with SIO but with " << calls.written.back());
    } else {
      REQUIRE(calls.written.size() == f + 1 && calls.written.back() == backend + ":" + files.back(),
              "the file " << files.back() << " of type " << type << " is written by " << calls.written.back());
      REQUIRE(calls.finishes == before + 1, "the file is not finished");
      auto& ks = fakeroot::files()[files.back()]->keys;
      for (size_t i = 0, n = c.below(3); i < n; ++i) ks.push_back({c.flip(), c.flip() ? "TTree" : "ROOT::RNTupleLike"});
      if (rntuple) ks.insert(ks.begin() + long(c.below(ks.size() + 1)), {true, c.flip() ? "ROOT::RNTuple" : "ROOT::Experimental::RNTuple"});
      std::ofstream(files.back()).flush(); // something on disk for patterns
    }
  }
  std::optional<podio::Reader> r;
  if (nf == 1 && c.flip())
    r.emplace(podio::makeReader(files[0]));
  else if (nf > 1 && c.chance(1, 3))
    r.emplace(podio::makeReader(stem + "?" + ext));
  else
    r.emplace(podio::makeReader(files));
  if (sio) {
    REQUIRE(calls.opened.empty(), "the SIO file is read by " << calls.opened[0]);
    REQUIRE(r->currentFileVersion() == podio::version::build_version, "version of the file");
  } else {
    std::vector<std::string> want;
    for (auto& f : files) want.push_back(backend + ":" + f);
    REQUIRE(calls.opened == want, "the files are not all opened by the backend " << backend << " in order");
    REQUIRE((r->currentFileVersion() == podio::version::Version{7, 8, 9}), "version of the file");
  }
  defs.check(*r);
  for (auto& [n, es] : content) {
    auto s = r->getSizeStats(n);
    REQUIRE(s.has_value() == (!sio && !rntuple), "size statistics");
    if (s) REQUIRE(s->size() == 1 && s->at(n).numBytes == es.size(), "size statistics");
  }
  if (c.flip()) {
    podio::Reader moved = std::move(*r);
    r.emplace(std::move(moved));
  }
  REQUIRE(r->getEvents() == (content.count("events") ? content["events"].size() : 0), "number of events");
  std::vector<std::shared_ptr<FrameWorld>> kept;
  readSome(c, *r, Access<podio::Reader>{*r, c}, content, 1 + c.below(7), kept);
  if (c.chance(1, 4) && !content.empty()) {
    const size_t huge = (size_t(1 + c.below(3)) << 32) + c.below(2);
    REQUIRE_THROWS_AS((void)r->readFrame(content.begin()->first, huge), std::exception, "reading frame " << huge);
    c.label("huge index");
  }
  r.reset();
  for (auto& k : kept) k->readAll();
  c.label(sio ? "SIO" : backend);
  (void)same;

  // names that belong to no backend, and files that do not fit together
  switch (c.draw(5)) {
  case 0: {
    const std::string bad = dir.d + "/" + c.ident(3) + c.pick(std::vector<std::string>{".roo", ".root_", ".sioo", ".si", "sio", "root", ".txt", ".Root", ""});
    REQUIRE_THROWS_AS((void)podio::makeWriter(bad), std::runtime_error, "a writer for " << bad);
    std::ofstream(bad).flush();
    REQUIRE_THROWS_AS((void)podio::makeReader(bad), std::runtime_error, "a reader for " << bad);
    break;
  }
  case 1:
    REQUIRE_THROWS_AS((void)podio::makeReader(std::vector<std::string>{}), std::runtime_error, "a reader for no files");
    break;
  case 2: {
    auto mixed = files;
    mixed.insert(mixed.begin() + long(c.below(mixed.size() + 1)), dir.d + "/other" + (sio ? ".root" : ".sio"));
    REQUIRE_THROWS_AS((void)podio::makeReader(mixed), std::runtime_error, "a reader for files of different kinds");
    break;
  }
  case 3:
    if (sio) REQUIRE_THROWS_AS((void)podio::makeReader(std::vector<std::string>{files[0], files[0]}), std::runtime_error, "a reader for two SIO files");
    break;
  default:
    REQUIRE_THROWS_AS((void)podio::makeReader(std::vector<std::string>{dir.d + "/missing" + ext}), std::exception, "a reader for a file that does not exist");
  }
}

#ifdef WITH_DUMP
namespace {
struct Dumped {
  int rc{-1}; // -1: an exception left main
  std::string out, err;
};
Dumped dump(const std::string& dir, const std::vector<std::string>& args) {
  std::vector<std::string> own{"podio-dump-tool"};
  own.insert(own.end(), args.begin(), args.end());
  std::vector<char*> argv;
  for (auto& a : own) argv.push_back(a.data());
  argv.push_back(nullptr);
  auto flush = [] {
    std::cout.flush();
    std::cerr.flush();
    fflush(stdout);
    fflush(stderr);
  };
  Dumped r;
  flush();
  const int so = dup(1), se = dup(2);
  const std::string of = dir + "/stdout", ef = dir + "/stderr";
  auto to = [](const std::string& f, int fd) {
    FILE* x = fopen(f.c_str(), "wb");
    dup2(fileno(x), fd);
    fclose(x);
  };
  to(of, 1);
  to(ef, 2);
  try {
    r.rc = dumpToolMain(int(argv.size()) - 1, argv.data());
  } catch (const DumpExit& e) {
    r.rc = e.rc;
  } catch (const std::exception& e) {
    r.err = std::string("exception: ") + e.what();
  }
  flush();
  dup2(so, 1);
  dup2(se, 2);
  close(so);
  close(se);
  auto slurp = [](const std::string& f) {
    std::ifstream s(f, std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(s), {});
  };
  r.out = slurp(of);
  r.err += slurp(ef);
  return r;
}
/// runs of spaces as two, none at the end of lines, no rulers: how wide the columns of a table are does not matter
std::string squeezed(const std::string& t) {
  std::string r;
  for (size_t i = 0; i < t.size();) {
    if (t[i] == ' ') {
      size_t j = i;
      while (j < t.size() && t[j] == ' ') ++j;
      if (j < t.size() && t[j] != '\n') r += j - i > 1 ? "  " : " ";
      i = j;
    } else {
      r += t[i++];
    }
  }
  return r;
}
size_t occurrences(const std::string& t, const std::string& x) {
  size_t n = 0;
  for (size_t at = t.find(x); at != std::string::npos; at = t.find(x, at + 1)) ++n;
  return n;
}
std::string versionText(podio::version::Version v) { return std::to_string(v.major) + "." + std::to_string(v.minor) + "." + std::to_string(v.patch); }
} // namespace

PBT_PROP_NOLEAK(dump_tool_shows_what_is_in_the_file) {
  Dir dir;
  fakeroot::files().clear();
  fakeroot::stats().clear();
  fakeroot::calls() = {};
  unsetenv("PODIO_DEFAULT_WRITE_RNTUPLE");
  const bool sio = c.flip();
  const std::string type = sio ? "default" : c.flip() ? "rntuple" : "root";
  const std::string file = dir.d + "/" + c.ident(3) + (sio ? ".sio" : ".root");
  std::vector<std::string> cats;
  for (size_t i = 0, n = 1 + c.below(3); i < n; ++i) cats.push_back(c.flip() ? std::string("events") : category(c));
  Content content;
  Defs defs;
  {
    auto w = podio::makeWriter(file, type);
    writeSome(c, w, content, defs, 6, cats);
  }
  if (type == "rntuple") fakeroot::files()[file]->keys.push_back({true, "ROOT::RNTuple"});
  if (!sio) std::ofstream(file).flush();
  const auto definitions = defs.coll.getDatamodelDefinitionsToWrite();

  // the command line
  std::vector<std::vector<std::string>> opts;
  std::string cat = "events";
  if (c.chance(2, 3)) {
    cat = c.chance(1, 12) ? "nothing of this name" : c.pick(cats);
    opts.push_back({c.flip() ? "-c" : "--category", cat});
  }
  const size_t have = content.count(cat) ? content[cat].size() : 0;
  std::vector<size_t> entries{0};
  bool bad = false; // arguments that have to be refused
  if (c.chance(4, 5)) {
    std::string e;
    auto some = [&] { return have && c.chance(7, 8) ? c.below(have) : c.below(8); };
    switch (c.draw(6)) {
    case 0:
      e = "-1";
      entries.resize(have);
      std::iota(entries.begin(), entries.end(), size_t(0));
      c.label("all entries");
      break;
    case 1:
      entries = {some()};
      e = std::to_string(entries[0]);
      break;
    case 2: {
      size_t a = some(), b = some();
      e = std::to_string(a) + ":" + std::to_string(b);
      entries.clear();
      for (size_t i = a; i <= b; ++i) entries.push_back(i);
      bad = b < a;
      c.label(bad ? "range that ends before it starts" : "range of entries");
      break;
    }
    case 3:
    case 4: {
      entries.clear();
      for (size_t i = 0, n = 2 + c.below(3); i < n; ++i) {
        entries.push_back(some());
        e += (i ? "," : "") + std::to_string(entries.back());
      }
      c.label("list of entries");
      break;
    }
    default:
      bad = true;
      e = c.pick(std::vector<std::string>{",", ":", "1:", ":1", "1:2:3", "1,", ",1", "1,,2", "0:1,2", "a", "1a", "a1", "0x1", "-2", "-1,0", "0:-1", "1.5", " 1", "1 ", "+1", "99999999999999999999999"});
      c.label("no list of entries");
    }
    c.log("-e ", e);
    opts.push_back({c.flip() ? "-e" : "--entries", e});
  }
  const bool detailed = c.chance(1, 3);
  if (detailed) opts.push_back({c.flip() ? "-d" : "--detailed"});
  const bool sizes = c.chance(1, 4);
  if (sizes) opts.push_back({c.flip() ? "-s" : "--size-stats"});
  std::string model;
  if (c.chance(1, 5)) {
    model = definitions.empty() || c.chance(1, 6) ? "unknown" : std::get<0>(c.pick(definitions));
    opts.push_back({"--dump-edm", model});
  }
  opts.push_back({file});
  bool usage = false, help = false, version = false;
  if (c.chance(1, 12)) {
    usage = true;
    switch (c.draw(3)) {
    case 0:
      opts.push_back({c.pick(std::vector<std::string>{"second.root", "--detail", "-x", ""})});
      break;
    case 1:
      opts.pop_back();
      break;
    default:
      opts.push_back({c.pick(std::vector<std::string>{"-c", "--category", "--dump-edm"})});
      // only the first occurrence of an option is looked at: it has to be the one without a value
      std::erase_if(opts, [](auto& o) { return o[0] == "-c" || o[0] == "--category" || o[0] == "--dump-edm"; });
      opts.push_back({c.pick(std::vector<std::string>{"-c", "--category", "--dump-edm", "-e", "--entries"})});
      std::erase_if(opts, [&](auto& o) { return &o != &opts.back() && (o[0] == "-e" || o[0] == "--entries"); });
    }
  } else {
    for (size_t i = opts.size(); i > 1; --i) std::swap(opts[i - 1], opts[c.below(i)]);
  }
  if (c.chance(1, 20)) {
    (c.flip() ? help : version) = true;
    opts.insert(opts.begin() + long(c.below(opts.size() + 1)), {help ? (c.flip() ? "-h" : "--help") : "--version"});
  }
  std::vector<std::string> args;
  for (auto& o : opts) args.insert(args.end(), o.begin(), o.end());
  std::string shown;
  for (auto& a : args) shown += a + " ";
  c.log("podio-dump ", shown);

  // size statistics are about all collections of the category
  if (!sio && type == "root") {
    for (auto& [_, es] : content)
      for (auto& e : es)
        for (auto& n : e.names) fakeroot::stats()[n] = SizeStats{c.below(100000), float(c.below(1000)) / 64.f};
    if (fakeroot::stats().empty()) fakeroot::stats()["x"] = {1, 1.f};
  }
  const auto r = dump(dir.d, args);
  const auto showAll = [&] { return " with " + shown + "\n--- output ---\n" + r.out + "--- errors ---\n" + r.err; };
  if (help || version) {
    REQUIRE(r.rc == 0, "exit code " << r.rc << showAll());
    if (version)
      REQUIRE(r.out.find(versionText(podio::version::build_version)) != std::string::npos, "no version" << showAll());
    else
      REQUIRE(r.out.rfind("usage: podio-dump", 0) == 0 && r.out.find("--entries") != std::string::npos, "no help" << showAll());
    return;
  }
  if (usage || bad) {
    REQUIRE(r.rc > 0, "arguments are not refused, exit code " << r.rc << showAll());
    REQUIRE(!r.err.empty() && r.out.empty(), "no message about wrong arguments" << showAll());
    c.label("arguments refused");
    return;
  }
  if (!model.empty()) {
    if (model == "unknown") {
      REQUIRE(r.rc > 0 && !r.err.empty() && r.out.empty(), "dumping an unknown model does not fail" << showAll());
    } else {
      std::string def;
      for (auto& [n, d] : definitions)
        if (n == model) def = d;
      REQUIRE(r.rc == 0 && r.out == def + "\n", "not the definition of the model" << showAll());
    }
    return;
  }
  // general information
  REQUIRE(r.rc >= 0, "exception" << showAll());
  size_t stop = entries.size();
  for (size_t i = 0; i < entries.size(); ++i)
    if (entries[i] >= have) {
      stop = i;
      break;
    }
  if (stop < entries.size())
    REQUIRE(r.rc > 0 && !r.err.empty(), "entry " << entries[stop] << " is not in the file, exit code " << r.rc << showAll());
  else
    REQUIRE(r.rc == 0, "exit code " << r.rc << showAll());
  // the frames with the rulers above them
  const std::string mark = std::string("#### ");
  auto out = r.out;
  size_t at = std::string::npos;
  {
    // a ruler is a line of its own: "#### category: entry ####"
    std::vector<size_t> starts;
    size_t from = 0;
    for (size_t i = 0; i < stop; ++i) {
      const std::string head = " " + cat + ": " + std::to_string(entries[i]) + " ";
      size_t p = from;
      for (;; ++p) {
        p = out.find(head, p);
        REQUIRE(p != std::string::npos, "no frame " << head << showAll());
        size_t b = p, e = p + head.size();
        while (b > 0 && out[b - 1] == '#') --b;
        while (e < out.size() && out[e] == '#') ++e;
        if (b < p && e > p + head.size() && (b == 0 || out[b - 1] == '\n') && out[e] == '\n') {
          starts.push_back(b);
          from = e + 1;
          break;
        }
      }
    }
    at = starts.empty() ? out.size() : starts[0];
    // general part
    const auto general = "\n" + squeezed(out.substr(0, at));
    REQUIRE(general.find("input file: " + file + "\n") != std::string::npos, "no name of the file" << showAll());
    REQUIRE(general.find(versionText(sio ? podio::version::build_version : podio::version::Version{7, 8, 9})) != std::string::npos, "no version of the file" << showAll());
    for (auto& [n, _] : definitions) {
      const auto v = podio::DatamodelRegistry::instance().getDatamodelVersion(n);
      REQUIRE(general.find("\n - " + n + (v ? " (" + versionText(*v) + ")" : "") + "\n") != std::string::npos, "no model " << n << showAll());
    }
    REQUIRE(occurrences(general, "\n - ") == definitions.size(), "other models" << showAll());
    for (auto& [n, es] : content)
      REQUIRE(occurrences(general, "\n" + n + "  " + std::to_string(es.size()) + "\n") == 1, "no category " << n << " with " << es.size() << " entries" << showAll());
    // each frame
    auto reader = podio::makeReader(file);
    for (size_t i = 0; i < stop; ++i) {
      const size_t end = i + 1 < stop ? starts[i + 1] : out.size();
      auto text = out.substr(starts[i], end - starts[i]);
      auto& e = content[cat][entries[i]];
      const auto frame = reader.readFrame(cat, entries[i]);
      auto names = e.names;
      std::sort(names.begin(), names.end());
      names.erase(std::unique(names.begin(), names.end()), names.end());
      if (names.size() > 1) c.nontrivial();
      if (detailed) {
        for (auto& n : names) {
          const auto* coll = frame.get(n);
          std::stringstream s;
          s << "\n" << n << (coll->isSubsetCollection() ? " (s)" : "") << "\n";
          coll->print(s);
          REQUIRE(text.find(s.str()) != std::string::npos, "collection " << n << " of entry " << entries[i] << " is not shown like it prints itself:" << s.str() << showAll());
        }
        std::stringstream s;
        frame.getParameters().print(s);
        REQUIRE(text.find(s.str()) != std::string::npos, "the parameters of entry " << entries[i] << " are not shown" << showAll());
      } else {
        text = squeezed(text);
        const size_t pars = text.find("\nParameters:\n");
        REQUIRE(pars != std::string::npos, "no parameters" << showAll());
        const auto colls = text.substr(0, pars);
        text = text.substr(pars);
        size_t lines = 0, rows = 0;
        for (auto& n : names) {
          const auto* coll = frame.get(n);
          char id[16];
          snprintf(id, sizeof id, "%08x", coll->getID());
          std::string row = n + (coll->isSubsetCollection() ? " (s)" : "") + "  " + std::string(coll->getValueTypeName()) + "  " + std::to_string(coll->size()) + "  " + id;
          if (sizes && !sio && type == "root") {
            char st[64];
            const auto& x = fakeroot::stats()[n];
            snprintf(st, sizeof st, "%zu (%.2f)", x.numBytes, double(x.compressionFactor));
            row += std::string("  ") + st;
            c.label("size statistics");
          }
          REQUIRE(occurrences(colls, "\n" + squeezed(row) + "\n") == 1, "no row '" << row << "'" << showAll());
          ++rows;
        }
        lines = size_t(std::count(colls.begin(), colls.end(), '\n'));
        REQUIRE(lines >= rows + 3 && lines <= rows + 5, lines << " lines for " << rows << " collections" << showAll());
        auto parameters = [&](auto t, const char* name) {
          using T = decltype(t);
          for (auto& k : frame.getParameterKeys<T>()) {
            const auto row = k + "  " + name + "  " + std::to_string(frame.getParameter<std::vector<T>>(k)->size());
            REQUIRE(text.find("\n" + squeezed(row) + "\n") != std::string::npos, "no parameter '" << row << "'" << showAll());
            rows += 1 + size_t(std::count(k.begin(), k.end(), '\n'));
          }
        };
        rows = 0;
        parameters(int{}, "int");
        parameters(float{}, "float");
        parameters(double{}, "double");
        parameters(std::string{}, "std::string");
        lines = size_t(std::count(text.begin(), text.end(), '\n'));
        REQUIRE(lines >= rows + 3 && lines <= rows + 5, lines << " lines for " << rows << " lines of parameters" << showAll());
      }
    }
  }
  c.label(sio ? "SIO" : type);
  if (detailed) c.label("detailed");
}
#endif
