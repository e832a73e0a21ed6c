#pragma once
#include "TKey.h"
#include "podio/ROOTReader.h"
struct TFile {
  std::vector<std::unique_ptr<TObject>> own;
  std::vector<TObject*> keys;
  static TFile* Open(const char* name) {
    const auto it = fakeroot::files().find(name);
    if (it == fakeroot::files().end()) return nullptr;
    auto* f = new TFile;
    for (auto& k : it->second->keys) {
      f->own.push_back(k.isKey ? std::make_unique<TKey>(k.className) : std::make_unique<TObject>());
      f->keys.push_back(f->own.back().get());
    }
    return f;
  }
  std::vector<TObject*>* GetListOfKeys() { return &keys; }
};
