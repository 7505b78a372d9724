F = "src/engine/Filter.cpp"
G = "src/engine/GroupBy.cpp"
T = "src/index/Index.Text.cpp"
I = "src/engine/IdTable.h"
K = "src/util/Socket.h"
L = "src/util/File.h"
M = "src/util/MmapVectorImpl.h"
P = "src/global/Pattern.h"
Y = "src/util/Synchronized.h"
D = "src/index/IndexMetaDataImpl.h"
Q = "src/parser/ParsedQuery.cpp"
BUGS = [
    ("filter array", [(F, "  std::vector<Id> rhs_array(res->cols());\n  IdTable::row_type rhs_row(rhs_array.data(), res->cols());", "  Id* rhs_array = new Id[res->cols()];\n  IdTable::row_type rhs_row(rhs_array, res->cols());"),
                      (F, "          res);\n    } break;\n  }\n}\n\n// _____________________________________________________________________________\ntemplate <int WIDTH>\nvoid Filter::computeResultFixedValue", "          res);\n    } break;\n  }\n  delete[] rhs_array;\n}\n\n// _____________________________________________________________________________\ntemplate <int WIDTH>\nvoid Filter::computeResultFixedValue")]),
    ("delimiter new", G, "            &delimiters.emplace_back(alias._delimiter);", "            new std::string(alias._delimiter);"),
    ("early return", D, "  createFromByteBuffer(buf);\n  delete[] buf;", "  createFromByteBuffer(buf);\n  if (getVersion() == 0) return;\n  delete[] buf;"),
    ("delete form", D, "  createFromByteBuffer(buf);\n  delete[] buf;", "  createFromByteBuffer(buf);\n  delete buf;"),
    ("list leak", T, "    AD_CHECK_EQ(size, ret);\n    delete[] encoded;", "    AD_CHECK_EQ(size, ret);"),
    ("double delete", T, "  delete[] wordList;\n  delete[] scoreList;", "  delete[] wordList;\n  delete[] wordList;"),
    ("row dtor", I, "    if (_allocated) {\n      delete[] _data;\n    }\n  }\n\n  Row(const Row& other)", "  }\n\n  Row(const Row& other)"),
    ("row no release", I, "      delete[] _data;\n      _data = new Id[other._cols];\n      _cols = other._cols;\n    }\n    // Copy over", "      _data = new Id[other._cols];\n      _cols = other._cols;\n    }\n    // Copy over"),
    ("row keeps", I, "        other._data = nullptr;\n\n        return *this;", "        return *this;"),
    ("row ctor keeps", I, "    if (other._allocated) {\n      other._data = nullptr;\n    } else {\n      std::memcpy(_data, other._data, sizeof(Id) * _cols);\n    }\n  }", "    if (!other._allocated) {\n      std::memcpy(_data, other._data, sizeof(Id) * _cols);\n    }\n  }"),
    ("socket buf", K, "  ~Socket() { delete[] _buf; }", "  ~Socket() = default;"),
    ("socket form", K, "  ~Socket() { delete[] _buf; }", "  ~Socket() { delete _buf; }"),
    ("addr list", K, "    freeaddrinfo(res);\n", ""),
    ("addr early", K, "    bool success = ::bind(_fd, res->ai_addr, res->ai_addrlen) != -1;\n    freeaddrinfo(res);\n    return success;", "    if (::bind(_fd, res->ai_addr, res->ai_addrlen) == -1) return false;\n    freeaddrinfo(res);\n    return true;"),
    ("file dtor", L, "  ~File() {\n    if (isOpen()) close();\n  }", "  ~File() {}"),
    ("file keeps", L, "    _file = NULL;\n    return true;", "    return true;"),
    ("map fd", M, "  ::close(orig_fd);\n  _ptr = static_cast<T*>(ptr);\n  advise(_pattern);\n}\n\n// ________________________________________________________________\ntemplate <class T>\nvoid MmapVector<T>::mapForWriting", "  _ptr = static_cast<T*>(ptr);\n  advise(_pattern);\n}\n\n// ________________________________________________________________\ntemplate <class T>\nvoid MmapVector<T>::mapForWriting"),
    ("unmap keeps", M, "    munmap(static_cast<void*>(_ptr), _bytesize);\n    _ptr = nullptr;", "    munmap(static_cast<void*>(_ptr), _bytesize);"),
    ("no unmap", M, "    munmap(static_cast<void*>(_ptr), _bytesize);\n    _ptr = nullptr;", "    _ptr = nullptr;"),
    ("strings dtor", P, "  virtual ~CompactStringVector() { delete[] _data; }", "  virtual ~CompactStringVector() {}"),
    ("strings form", P, "  virtual ~CompactStringVector() { delete[] _data; }", "  virtual ~CompactStringVector() { delete _data; }"),
    ("unlock shared", Y, "      s_->m_.unlock_shared();", "      // s_->m_.unlock_shared();"),
    ("unlock form", Y, "      s_->m_.unlock_shared();", "      s_->m_.unlock();"),
    ("read raw", T, "  std::vector<uint64_t> encoded(", "  uint64_t* leak = new uint64_t[nofBytes / 8];\n  _textIndexFile.read(leak, nofBytes, from);\n  delete[] leak;\n  std::vector<uint64_t> encoded("),
]
SAFE = [
    ("meta vector", D, "  unsigned char* buf = new unsigned char[metaTo - metaFrom];\n  file->read(buf, static_cast<size_t>(metaTo - metaFrom), metaFrom);\n  createFromByteBuffer(buf);\n  delete[] buf;", "  std::vector<unsigned char> buf(metaTo - metaFrom);\n  file->read(buf.data(), buf.size(), metaFrom);\n  createFromByteBuffer(buf.data());"),
    ("meta unique", D, "  unsigned char* buf = new unsigned char[metaTo - metaFrom];\n  file->read(buf, static_cast<size_t>(metaTo - metaFrom), metaFrom);\n  createFromByteBuffer(buf);\n  delete[] buf;", "  std::unique_ptr<unsigned char[]> buf(new unsigned char[metaTo - metaFrom]);\n  file->read(buf.get(), static_cast<size_t>(metaTo - metaFrom), metaFrom);\n  createFromByteBuffer(buf.get());"),
    ("socket vector", K, "    bool success = ::bind(_fd, res->ai_addr, res->ai_addrlen) != -1;\n    freeaddrinfo(res);\n    return success;", "    if (::bind(_fd, res->ai_addr, res->ai_addrlen) == -1) {\n      freeaddrinfo(res);\n      return false;\n    }\n    freeaddrinfo(res);\n    return true;"),
    ("file helper", L, "  ~File() {\n    if (isOpen()) close();\n  }", "  ~File() { finish(); }\n  void finish() {\n    if (_file != NULL) close();\n  }"),
    ("file null first", L, "    if (fclose(_file) != 0) {", "    FILE* f = _file;\n    _file = NULL;\n    if (fclose(f) != 0) {"),
    ("unmap local", M, "    munmap(static_cast<void*>(_ptr), _bytesize);\n    _ptr = nullptr;", "    void* old = static_cast<void*>(_ptr);\n    _ptr = nullptr;\n    munmap(old, _bytesize);"),
    ("row exchange", I, "        _data = other._data;\n        _cols = other._cols;\n\n        // otherwise the data will be deleted unexpectedly\n        other._data = nullptr;\n\n        return *this;", "        _data = std::exchange(other._data, nullptr);\n        _cols = other._cols;\n\n        return *this;"),
    ("list order", T, "  delete[] contextList;\n  delete[] wordList;\n  delete[] scoreList;", "  delete[] scoreList;\n  delete[] wordList;\n  delete[] contextList;"),
    ("early ok", T, "  delete[] buf;\n  ofs.close();", "  delete[] buf;\n  buf = nullptr;\n  ofs.close();"),
    ("null delete", T, "    size_t size = ad_utility::Simple8bCode::encode(data, nofElements, encoded);", "    if (encoded == nullptr) return 0;\n    size_t size = ad_utility::Simple8bCode::encode(data, nofElements, encoded);"),
]
