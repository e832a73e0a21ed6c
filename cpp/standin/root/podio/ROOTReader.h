// Stand-ins for podio's ROOT backends (ROOT is not installed here): files are kept in memory, with the interface of the real classes.
// They only serve to see what the generic Reader and Writer do with a backend.
#pragma once
#include "store.h"
#include "podio/utilities/ReaderCommon.h"
#include "podio/utilities/ReaderUtils.h"

namespace fakeroot {
struct Key {
  bool isKey;
  std::string className;
};
struct File {
  std::string backend;
  std::vector<std::pair<std::string, std::vector<wm::Store>>> categories;
  podio::DatamodelDefinitionCollector collector;
  std::vector<Key> keys;
  bool finished{false};
};
inline std::map<std::string, std::shared_ptr<File>>& files() {
  static std::map<std::string, std::shared_ptr<File>> f;
  return f;
}
struct Calls {
  std::vector<std::string> opened;  // backend:file
  std::vector<std::string> written; // backend:file
  int finishes{0};
};
inline Calls& calls() {
  static Calls c;
  return c;
}
inline void writeTo(const std::shared_ptr<File>& f, const podio::Frame& frame, std::string_view category, const std::vector<std::string>& colls) {
  if (f->finished) throw std::logic_error("writing to a finished file");
  for (auto& n : colls) {
    if (!frame.get(n)) throw std::runtime_error("Collection '" + n + "' is not available in Frame");
    f->collector.registerDatamodelDefinition(frame.get(n), n);
  }
  for (auto& [n, fs] : f->categories)
    if (n == category) {
      fs.push_back(wm::storeFrame(frame, colls));
      return;
    }
  f->categories.push_back({std::string(category), {wm::storeFrame(frame, colls)}});
}
struct ReaderBase : podio::ReaderCommon {
  using Data = wm::MemFrameData;
  std::vector<std::shared_ptr<File>> fs;
  std::map<std::string, unsigned> next;
  void open(const std::string& backend, const std::vector<std::string>& names) {
    for (auto& n : names) {
      calls().opened.push_back(backend + ":" + n);
      const auto it = files().find(n);
      if (it == files().end()) throw std::runtime_error("File " + n + " couldn't be opened");
      if (it->second->backend != backend) throw std::runtime_error("File " + n + " is not a file of " + backend);
      fs.push_back(it->second);
      for (auto& [cat, _] : it->second->categories)
        if (std::find(m_availableCategories.begin(), m_availableCategories.end(), cat) == m_availableCategories.end()) m_availableCategories.push_back(cat);
    }
    m_fileVersion = podio::version::Version{7, 8, 9};
    auto defs = fs[0]->collector.getDatamodelDefinitionsToWrite();
    podio::DatamodelDefinitionHolder::VersionList vs;
    for (auto& d : defs)
      if (auto v = podio::DatamodelRegistry::instance().getDatamodelVersion(std::get<0>(d))) vs.emplace_back(std::get<0>(d), *v);
    m_datamodelHolder = podio::DatamodelDefinitionHolder(std::move(defs), std::move(vs));
  }
  std::vector<const wm::Store*> all(std::string_view cat) const {
    std::vector<const wm::Store*> r;
    for (auto& f : fs)
      for (auto& [n, v] : f->categories)
        if (n == cat)
          for (auto& s : v) r.push_back(&s);
    return r;
  }
  unsigned getEntries(std::string_view cat) const { return unsigned(all(cat).size()); }
  std::unique_ptr<Data> readNextEntry(std::string_view cat, const std::vector<std::string>& colls = {}) {
    const auto a = all(cat);
    auto& n = next[std::string(cat)];
    if (n >= a.size()) return nullptr;
    wm::Store s = *a[n++];
    if (!colls.empty()) {
      for (auto& w : colls)
        if (std::none_of(s.colls.begin(), s.colls.end(), [&](auto& x) { return x->name == w; })) throw std::invalid_argument(w + " is not available from Frame");
      std::erase_if(s.colls, [&](auto& x) { return std::find(colls.begin(), colls.end(), x->name) == colls.end(); });
    }
    return std::make_unique<Data>(s);
  }
  std::unique_ptr<Data> readEntry(std::string_view cat, const unsigned entry, const std::vector<std::string>& colls = {}) {
    next[std::string(cat)] = entry;
    return readNextEntry(cat, colls);
  }
};
inline std::map<std::string, SizeStats>& stats() {
  static std::map<std::string, SizeStats> s;
  return s;
}
template <bool Tree>
struct WriterBase {
  std::shared_ptr<File> f{std::make_shared<File>()};
  std::string name;
  explicit WriterBase(const std::string& n) : name(n) {
    f->backend = Tree ? "tree" : "rntuple";
    calls().written.push_back(f->backend + ":" + n);
  }
  WriterBase(const WriterBase&) = delete;
  ~WriterBase() { finish(); }
  void writeFrame(const podio::Frame& frame, std::string_view category) { writeFrame(frame, category, frame.getAvailableCollections()); }
  void writeFrame(const podio::Frame& frame, std::string_view category, const std::vector<std::string>& colls) { writeTo(f, frame, category, colls); }
  void finish() {
    if (f->finished) return;
    f->finished = true;
    ++calls().finishes;
    files()[name] = f;
  }
};
} // namespace fakeroot

namespace podio {
class ROOTReader : public fakeroot::ReaderBase {
public:
  void openFile(const std::string& f) { openFiles({f}); }
  void openFiles(const std::vector<std::string>& f) { open("tree", f); }
  std::optional<std::map<std::string, SizeStats>> getSizeStats(std::string_view category) {
    if (!fakeroot::stats().empty()) return fakeroot::stats();
    std::map<std::string, SizeStats> r;
    r[std::string(category)] = SizeStats{size_t(getEntries(category)), 2.f};
    return r;
  }
};
} // namespace podio
