#!/usr/bin/env python3
"""Writes, in the directory given, copies of a few installed headers with the
additions that Principia gets from later (or its own) versions of Abseil and
protobuf.  Nothing existing is changed, so the installed libraries still
match."""
import os, sys

OUT = sys.argv[1]
INC = '/usr/include/'


def patch(path, *edits):
    s = open(INC + path, encoding='utf-8').read()
    for old, new in edits:
        assert s.count(old) >= 1, (path, old)
        s = s.replace(old, new, 1)
    dst = os.path.join(OUT, path)
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    if not os.path.exists(dst) or open(dst, encoding='utf-8').read() != s:
        with open(dst, 'w', encoding='utf-8') as f:
            f.write(s)


patch('google/protobuf/arena.h', ('''class PROTOBUF_EXPORT PROTOBUF_ALIGNAS(8) Arena final {
 public:
''', '''class PROTOBUF_EXPORT PROTOBUF_ALIGNAS(8) Arena final {
 public:
  struct ShimDeleter {
    bool owned_by_arena = false;
    template <typename T>
    void operator()(T* const t) const {
      if (!owned_by_arena) {
        delete t;
      }
    }
  };
  template <typename T>
  using UniquePtr = std::unique_ptr<T, ShimDeleter>;
  template <typename T, typename... Args>
  static UniquePtr<T> MakeUnique(Arena* arena, Args&&... args) {
    UniquePtr<T> result(CreateMessage<T>(arena),
                        ShimDeleter{arena != nullptr});
    ((*result = std::forward<Args>(args)), ...);
    return result;
  }
'''), ('#include <limits>', '#include <limits>\n#include <memory>'),
# `ArenaOptions` as an aggregate, for designated initializers.
('''  size_t start_block_size;

  // This defines the maximum''', '''  size_t start_block_size =
      internal::AllocationPolicy::kDefaultStartBlockSize;

  // This defines the maximum'''),
('''  size_t max_block_size;

  // An initial''', '''  size_t max_block_size =
      internal::AllocationPolicy::kDefaultMaxBlockSize;

  // An initial'''),
('  char* initial_block;\n', '  char* initial_block = nullptr;\n'),
('  size_t initial_block_size;\n', '  size_t initial_block_size = 0;\n'),
('  void* (*block_alloc)(size_t);\n  // A function',
 '  void* (*block_alloc)(size_t) = nullptr;\n  // A function'),
('''  void (*block_dealloc)(void*, size_t);

  ArenaOptions()
      : start_block_size(internal::AllocationPolicy::kDefaultStartBlockSize),
        max_block_size(internal::AllocationPolicy::kDefaultMaxBlockSize),
        initial_block(NULL),
        initial_block_size(0),
        block_alloc(nullptr),
        block_dealloc(nullptr),
        make_metrics_collector(nullptr) {}

 private:
''', '''  void (*block_dealloc)(void*, size_t) = nullptr;

'''),
('(*make_metrics_collector)();\n', '(*make_metrics_collector)() = nullptr;\n'))

patch('absl/container/internal/btree_container.h', ('''  node_type extract(const_iterator position) {''',
'''  struct extract_and_get_next_return_type {
    node_type node;
    iterator next;
  };
  extract_and_get_next_return_type extract_and_get_next(
      const_iterator position) {
    iterator p(position);
    auto node =
        CommonAccess::Construct<node_type>(get_allocator(), p.slot());
    iterator const next = erase(p);
    return {std::move(node), next};
  }
  node_type extract(const_iterator position) {'''))

patch('absl/strings/string_view.h',
('''  constexpr string_view() noexcept : ptr_(nullptr), length_(0) {}
''', '''  constexpr string_view() noexcept : ptr_(nullptr), length_(0) {}
  constexpr string_view(std::basic_string_view<char> s)
      : ptr_(s.data()), length_(s.size()) {}
  constexpr operator std::basic_string_view<char>() const {
    return std::basic_string_view<char>(ptr_, length_);
  }
'''), ('#include <algorithm>', '#include <algorithm>\n#include <string_view>'))

patch('absl/strings/str_cat.h',
('''  AlphaNum(absl::string_view pc)''', '''  AlphaNum(std::basic_string_view<char> pc)
      : piece_(pc.data(), pc.size()) {}
  AlphaNum(absl::string_view pc)'''))

# Heterogeneous lookup through members of the key type.
patch('absl/container/internal/hash_function_defaults.h',
('''struct StringHash {
  using is_transparent''', '''template <class T>
struct HashEq<T, absl::void_t<typename T::absl_container_hash,
                              typename T::absl_container_eq>> {
  using Hash = typename T::absl_container_hash;
  using Eq = typename T::absl_container_eq;
};

struct StringHash {
  using is_transparent'''))
