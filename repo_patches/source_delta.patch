From 691aba758c1770ea458ae8d76c9b4481298af2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:38 +0000
Subject: [PATCH 01/66] fix: copying an empty Vector leaves its data pointer
 uninitialised

---
 include/efp/sequence.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index e8ab096..f255fbc 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -557,7 +557,8 @@ namespace detail {
         VectorBase() : _allocator(Allocator()), _data(nullptr), _size(0), _capacity(0) {}
 
         VectorBase(const VectorBase& other)
-            : _allocator(other._allocator), _size(other._size), _capacity(other._capacity) {
+            : _allocator(other._allocator), _data(nullptr), _size(other._size),
+              _capacity(other._capacity) {
             if (other._data) {
                 // Member function call in not allowed in member initializer list
                 // _data = _allocator.allocate(_capacity);
-- 
2.43.0


From 20efd880f37bce63d0732954280e3e35e8c629be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:28 +0000
Subject: [PATCH 02/66] fix: Vector copy assignment keeps the old size when the
 capacity suffices

---
 include/efp/sequence.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index f255fbc..ee67e55 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -579,14 +579,19 @@ namespace detail {
                     AllocatorTraits<Allocator>::destroy(_allocator, _data + i);
                 }
 
+                // Nothing is left to be moved by reserve
+                _size = 0;
+
                 if (_capacity < other._size + 1) {
-                    resize(other._size);
+                    reserve(other._size + 1);
                 }
 
                 for (size_t i = 0; i < other._size; ++i) {
                     // _allocator.construct(_data + i, other._data[i]);
                     AllocatorTraits<Allocator>::construct(_allocator, _data + i, other._data[i]);
                 }
+
+                _size = other._size;
             }
 
             return *this;
-- 
2.43.0


From 261d73d4da958f550d0c095d1fe434f7d1ed399e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:28 +0000
Subject: [PATCH 03/66] fix: Vector::resize neither constructs added nor
 destroys dropped elements

---
 include/efp/sequence.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index ee67e55..712a34a 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -716,6 +716,14 @@ namespace detail {
                 reserve(new_size + 1);
             }
 
+            for (size_t i = _size; i < new_size; ++i) {
+                AllocatorTraits<Allocator>::construct(_allocator, _data + i, Element {});
+            }
+
+            for (size_t i = new_size; i < _size; ++i) {
+                AllocatorTraits<Allocator>::destroy(_allocator, _data + i);
+            }
+
             _size = new_size;
         }
 
-- 
2.43.0


From 89312af8faea57a923b14f05584a38bb6546b7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:28 +0000
Subject: [PATCH 04/66] fix: ArrVec::resize neither constructs added nor
 destroys dropped elements

---
 include/efp/sequence.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 712a34a..cb1e5ad 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -360,6 +360,14 @@ public:
             throw RuntimeError("ArrVec::resize: length must be less than or equal to ct_capacity");
         }
 
+        for (size_t i = _size; i < length; ++i) {
+            new (_data + i) Element {};
+        }
+
+        for (size_t i = length; i < _size; ++i) {
+            (_data + i)->~Element();
+        }
+
         _size = length;
     }
 
-- 
2.43.0


From e413a0b08adde2a2ff3e1b6c4712aee7cea507ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:28 +0000
Subject: [PATCH 05/66] fix: moving an ArrVec leaks the moved-from elements

---
 include/efp/sequence.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index cb1e5ad..c41ffd7 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -273,10 +273,12 @@ public:
     }
 
     ArrVec(ArrVec&& other) noexcept : _size {other._size} {
-        other._size = 0;
         for (size_t i = 0; i < _size; ++i) {
             new (_data + i) Element {efp::move(other._data[i])};
         }
+
+        // Reset the source object
+        other.clear();
     }
 
     ArrVec& operator=(ArrVec&& other) noexcept {
@@ -293,7 +295,7 @@ public:
             }
 
             // Reset the source object
-            other._size = 0;
+            other.clear();
         }
         return *this;
     }
-- 
2.43.0


From b09ad7b1bb2763c8fdbd33a25d9ee75d5b3ef520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:28 +0000
Subject: [PATCH 06/66] fix: converting an ArrVec to a larger capacity reads
 past its elements

---
 include/efp/sequence.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index c41ffd7..baef3e4 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -308,8 +308,8 @@ public:
 
     // Constructor from array
     template<size_t ct_size_, typename = EnableIf<ct_capacity >= ct_size_, void>>
-    ArrVec(const ArrVec<Element, ct_size_>& as) : _size(ct_size_) {
-        for (size_t i = 0; i < ct_size_; ++i) {
+    ArrVec(const ArrVec<Element, ct_size_>& as) : _size(as.size()) {
+        for (size_t i = 0; i < _size; ++i) {
             new (_data + i) Element {as[i]};
         }
     }
-- 
2.43.0


From ff96c59b2761e9c128f09b6fed797298e97b6b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:28 +0000
Subject: [PATCH 07/66] fix: Vector::insert assigns to an unconstructed slot
 and constructs over a live element

---
 include/efp/sequence.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index baef3e4..ed20a23 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -847,7 +847,12 @@ namespace detail {
             }
 
             for (size_t i = _size; i > index; --i) {
-                _data[i] = efp::move(_data[i - 1]);
+                AllocatorTraits<Allocator>::construct(
+                    _allocator,
+                    _data + i,
+                    efp::move(_data[i - 1])
+                );
+                AllocatorTraits<Allocator>::destroy(_allocator, _data + i - 1);
             }
 
             // _allocator.construct(_data + index, value);
-- 
2.43.0


From 87ec8c9d361c1270af2f03bc942317de246bc0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:28 +0000
Subject: [PATCH 08/66] fix: Vector::erase assigns to a destroyed element and
 leaks the last one

---
 include/efp/sequence.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index ed20a23..ba89785 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -865,14 +865,12 @@ namespace detail {
                 throw RuntimeError("VectorBase::erase: index must be less than or equal to size");
             }
 
-            // _allocator.destroy(_data + index);
-            AllocatorTraits<Allocator>::destroy(_allocator, _data + index);
-
             for (size_t i = index; i < _size - 1; ++i) {
                 _data[i] = efp::move(_data[i + 1]);
             }
 
-            --_size;
+            // _allocator.destroy(_data + _size-- - 1);
+            AllocatorTraits<Allocator>::destroy(_allocator, _data + _size-- - 1);
         }
 
         void clear() {
-- 
2.43.0


From f8eb25f25e964cdafd535d1530566c03974e0c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:28 +0000
Subject: [PATCH 09/66] fix: adding a container's own element to it reads a
 moved or freed element

---
 include/efp/sequence.hpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index ba89785..a9d26ae 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -403,12 +403,15 @@ public:
             );
         }
 
+        // value may be one of the elements to be moved
+        Element copy(value);
+
         for (size_t i = _size; i > index; --i) {
             new (_data + i) Element(efp::move(_data[i - 1]));
             (_data + i - 1)->~Element();
         }
 
-        new (_data + index) Element(value);
+        new (_data + index) Element(efp::move(copy));
 
         ++_size;
     }
@@ -795,7 +798,12 @@ namespace detail {
 
         void push_back(const Element& value) {
             if (_size + 1 >= _capacity) {
+                // value may be an element of the storage to be replaced
+                Element copy(value);
                 reserve(_size == 0 ? 2 : 2 * _size + 1);
+                AllocatorTraits<Allocator>::construct(_allocator, _data + _size, efp::move(copy));
+                ++_size;
+                return;
             }
 
             // _allocator.construct(_data + _size, value);
@@ -805,7 +813,12 @@ namespace detail {
 
         void push_back(Element&& value) {
             if (_size + 1 >= _capacity) {
+                // value may be an element of the storage to be replaced
+                Element copy(efp::move(value));
                 reserve(_size == 0 ? 2 : 2 * _size + 1);
+                AllocatorTraits<Allocator>::construct(_allocator, _data + _size, efp::move(copy));
+                ++_size;
+                return;
             }
 
             // _allocator.construct(_data + _size, efp::move(value));
@@ -816,7 +829,12 @@ namespace detail {
         template<typename... Args>
         void emplace_back(Args&&... args) {
             if (_size + 1 >= _capacity) {
+                // args may refer to elements of the storage to be replaced
+                Element copy(efp::forward<Args>(args)...);
                 reserve(_size == 0 ? 2 : 2 * _size + 1);
+                AllocatorTraits<Allocator>::construct(_allocator, _data + _size, efp::move(copy));
+                ++_size;
+                return;
             }
 
             // _allocator.construct(_data + _size, efp::forward<Args>(args)...);
@@ -842,6 +860,9 @@ namespace detail {
                 throw RuntimeError("VectorBase::insert: index must be less than or equal to size");
             }
 
+            // value may be one of the elements to be moved
+            Element copy(value);
+
             if (_size + 1 >= _capacity) {
                 reserve(_capacity == 0 ? 2 : 2 * _capacity);
             }
@@ -856,7 +877,7 @@ namespace detail {
             }
 
             // _allocator.construct(_data + index, value);
-            AllocatorTraits<Allocator>::construct(_allocator, _data + index, value);
+            AllocatorTraits<Allocator>::construct(_allocator, _data + index, efp::move(copy));
             ++_size;
         }
 
-- 
2.43.0


From 6677640470e59cd1dc4243efa63668c6d5651106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:05 +0000
Subject: [PATCH 10/66] fix: a String of repeated characters bypasses its
 allocator and has no room for the terminator

---
 include/efp/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index b566f49..ebe8c63 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -44,9 +44,9 @@ public:
     }
 
     Vector(size_t size, Char c) {
-        Base::_capacity = size;
-        Base::_data = static_cast<Char*>(::operator new[](Base::_capacity * sizeof(Char)));
         Base::_size = size;
+        Base::_capacity = Base::_size + 1;
+        Base::_data = AllocatorTraits<Allocator>::allocate(Base::_allocator, Base::_capacity);
         for (size_t i = 0; i < size; ++i) {
             Base::_data[i] = c;
         }
-- 
2.43.0


From 68f20fbf68756d9d666d3b84dc9042bf90a6ecfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:05 +0000
Subject: [PATCH 11/66] fix: constructing a String from a range does not
 compile

---
 include/efp/string.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index ebe8c63..a2fbae6 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -61,22 +61,22 @@ public:
 
     // Not using iterator
     template<typename InputIt>
-    Vector(InputIt first, InputIt last, const Allocator& alloc = Allocator())
-        : Base::allocator_(alloc), Base::size_(0), Base::capacity_(0) {
+    Vector(InputIt first, InputIt last, const Allocator& alloc = Allocator()) {
+        Base::_allocator = alloc;
         // First pass: Count the number of elements to determine size
         for (InputIt it = first; it != last; ++it) {
-            ++Base::size_;
+            ++Base::_size;
         }
-        Base::capacity_ = Base::size_ + 1;
+        Base::_capacity = Base::_size + 1;
 
         // Allocate memory for the elements
-        // Base::data_ = Base::allocator_.allocate(Base::capacity_);
-        Base::data_ = AllocatorTraits<Allocator>::allocate(Base::allocator_, Base::capacity_);
+        // Base::_data = Base::_allocator.allocate(Base::_capacity);
+        Base::_data = AllocatorTraits<Allocator>::allocate(Base::_allocator, Base::_capacity);
 
         // Second pass: Copy-construct elements from the range
         size_t i = 0;
         for (InputIt it = first; it != last; ++it, ++i) {
-            Base::allocator_.construct(Base::data_ + i, *it);
+            AllocatorTraits<Allocator>::construct(Base::_allocator, Base::_data + i, *it);
         }
     }
 
-- 
2.43.0


From a78dd491572f304ff9863e9fc5c98f8fc9953a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:05 +0000
Subject: [PATCH 12/66] fix: an empty String or StringView without storage is
 not equal to an empty text

---
 include/efp/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index a2fbae6..3c3e38a 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -90,7 +90,7 @@ public:
             return true;
         }
 
-        if (Base::_data == nullptr || c_str == nullptr) {
+        if (c_str == nullptr) {
             return false;
         }
 
@@ -310,7 +310,7 @@ public:
             return true;
         }
 
-        if (Base::_data == nullptr || c_str == nullptr) {
+        if (c_str == nullptr) {
             return false;
         }
 
-- 
2.43.0


From 5dfedc66901efdc06a22b6bf28bf8c1208fe0e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:05 +0000
Subject: [PATCH 13/66] fix: appending a String to itself never ends

---
 include/efp/string.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 3c3e38a..d53944e 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -119,7 +119,9 @@ public:
     }
 
     Vector& operator+=(const Vector& other) {
-        for (size_t i = 0; i < other.size(); ++i) {
+        const size_t len = other.size();
+
+        for (size_t i = 0; i < len; ++i) {
             Base::push_back(other[i]);
         }
 
-- 
2.43.0


From 50a2bb6d144d22e0282fbe34c181f757f4e3a13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:05 +0000
Subject: [PATCH 14/66] fix: String::insert of a text leaves no room for the
 terminator

---
 include/efp/string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index d53944e..48ebb49 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -162,7 +162,8 @@ public:
         }
 
         const size_t len = Traits::length(c_str);
-        Base::reserve(Base::_size + len);
+        // Always reserve one extra space for the null character
+        Base::reserve(Base::_size + len + 1);
 
         for (size_t i = Base::_size; i > pos; --i) {
             Base::_data[i + len - 1] = Base::_data[i - 1];
-- 
2.43.0


From ce75013cd50fea979eb4dc59731696e9099391fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:05 +0000
Subject: [PATCH 15/66] fix: String::compare ignores the length of the other
 string and reads past its end

---
 include/efp/string.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 48ebb49..f7704f8 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -233,7 +233,7 @@ public:
     // todo find, rfind, find_first_of, find_last_of, find_first_not_of, find_last_not_of
 
     int compare(const Vector& other) const {
-        return Traits::compare(Base::_data, other.data(), Base::_size);
+        return compare(0, Base::_size, other);
     }
 
     int compare(size_t pos, size_t len, const Vector& other) const {
@@ -245,7 +245,10 @@ public:
             len = Base::_size - pos;
         }
 
-        return Traits::compare(Base::_data + pos, other.data(), len);
+        const int res =
+            Traits::compare(Base::_data + pos, other.data(), len < other.size() ? len : other.size());
+
+        return res != 0 ? res : (len > other.size()) - (len < other.size());
     }
 
     const Char* c_str() const {
-- 
2.43.0


From ab7b44917f507c938c27d0243ddcd027b53282ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:05 +0000
Subject: [PATCH 16/66] fix: String::c_str dereferences null on an empty String
 without storage

---
 include/efp/string.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index f7704f8..5dd4b7a 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -252,6 +252,12 @@ public:
     }
 
     const Char* c_str() const {
+        static const Char empty[1] = {};
+
+        if (Base::_data == nullptr) {
+            return empty;
+        }
+
         Base::_data[Base::_size] = '\0';
         return Base::_data;
     }
-- 
2.43.0


From a82dfd774380577d9de384dba03527d74117a8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:05 +0000
Subject: [PATCH 17/66] fix: views of the same elements made in different ways
 differ in capacity and compare unequal

---
 include/efp/sequence.hpp | 4 ++--
 include/efp/string.hpp   | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index a9d26ae..b122a29 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -1345,12 +1345,12 @@ namespace detail {
         // Constructor from ArrayView
         template<size_t ct_size_>
         VectorViewBase(const ArrayView<Element, ct_size_>& as)
-            : _data(as.data()), _size(length(as)) {}
+            : _data(as.data()), _size(length(as)), _capacity(length(as)) {}
 
         // Constructor from ArrVecView
         template<size_t ct_cap_>
         VectorViewBase(const ArrVecView<Element, ct_cap_>& as)
-            : _data(as.data()), _size(length(as)) {}
+            : _data(as.data()), _size(length(as)), _capacity(length(as)) {}
 
         const Element& operator[](size_t index) {
             return _data[index];
diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 5dd4b7a..49d7e52 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -303,12 +303,14 @@ public:
 
     VectorView(const Char* c_str) {
         Base::_size = Traits::length(c_str);
+        Base::_capacity = Base::_size;
         Base::_data = c_str;
     }
 
     // todo basic_string_view(const efp::BasicString<Char>& s) noexcept
     VectorView(const Vector<Char>& s) noexcept {
         Base::_size = s.size();
+        Base::_capacity = Base::_size;
         Base::_data = s.data();
     }
 
-- 
2.43.0


From f4544ab23ad28718809c3f70cdbae2a22d47d491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:03 +0000
Subject: [PATCH 18/66] fix: copying or moving a Vcq takes the wrong elements
 once it has wrapped, and moves each element twice

---
 include/efp/cyclic.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index efb6db3..777b7a9 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -183,8 +183,8 @@ class Vcq {
         for (size_t i = 0; i < other._size; ++i) {
             const auto j =
                 read_offset + i < ct_capacity ? read_offset + i : read_offset + i - ct_capacity;
-            new (_buffer + j) A(other._buffer[i]);
-            new (_buffer + ct_capacity + j) A(other._buffer[i]);
+            new (_buffer + j) A(other._buffer[j]);
+            new (_buffer + ct_capacity + j) A(other._buffer[ct_capacity + j]);
         }
 
         _size = other._size;
@@ -206,8 +206,8 @@ class Vcq {
             const auto j = read_offset_other + i < ct_capacity
                 ? read_offset_other + i
                 : read_offset_other + i - ct_capacity;
-            new (_buffer + j) A(other._buffer[i]);
-            new (_buffer + ct_capacity + j) A(other._buffer[i]);
+            new (_buffer + j) A(other._buffer[j]);
+            new (_buffer + ct_capacity + j) A(other._buffer[ct_capacity + j]);
         }
 
         _size = other._size;
@@ -222,8 +222,8 @@ class Vcq {
             const auto j = read_offset_other + i < ct_capacity
                 ? read_offset_other + i
                 : read_offset_other + i - ct_capacity;
-            new (_buffer + j) A(efp::move(other._buffer[i]));
-            new (_buffer + ct_capacity + j) A(efp::move(other._buffer[i]));
+            new (_buffer + j) A(efp::move(other._buffer[j]));
+            new (_buffer + ct_capacity + j) A(efp::move(other._buffer[ct_capacity + j]));
         }
 
         _size = other._size;
@@ -245,8 +245,8 @@ class Vcq {
             const auto j = read_offset_other + i < ct_capacity
                 ? read_offset_other + i
                 : read_offset_other + i - ct_capacity;
-            new (_buffer + j) A(efp::move(other._buffer[i]));
-            new (_buffer + ct_capacity + j) A(efp::move(other._buffer[i]));
+            new (_buffer + j) A(efp::move(other._buffer[j]));
+            new (_buffer + ct_capacity + j) A(efp::move(other._buffer[ct_capacity + j]));
         }
 
         _size = other._size;
-- 
2.43.0


From 7d4ae380f10c68518fac0107b3cbdfb067fb0aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:03 +0000
Subject: [PATCH 19/66] fix: assigning a Vcb or Vcq to itself reads its
 destroyed elements

---
 include/efp/cyclic.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index 777b7a9..97fca09 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -31,6 +31,10 @@ class Vcb {
     }
 
     Vcb& operator=(const Vcb& other) {
+        if (this == &other) {
+            return *this;
+        }
+
         for (size_t i = 0; i < ct_size * 2; ++i) {
             (_buffer + i)->~A();
             new (_buffer + i) A(other._buffer[i]);
@@ -47,7 +51,11 @@ class Vcb {
         _data = _buffer + (other._data - other._buffer);
     }
 
-    Vcb operator=(Vcb&& other) noexcept {
+    Vcb& operator=(Vcb&& other) noexcept {
+        if (this == &other) {
+            return *this;
+        }
+
         for (size_t i = 0; i < ct_size * 2; ++i) {
             (_buffer + i)->~A();
             new (_buffer + i) A(efp::move(other._buffer[i]));
@@ -193,6 +201,10 @@ class Vcq {
     }
 
     Vcq& operator=(const Vcq& other) {
+        if (this == &other) {
+            return *this;
+        }
+
         const auto read_offset = _read - _buffer;
         for (size_t i = 0; i < _size; ++i) {
             const auto j =
@@ -232,6 +244,10 @@ class Vcq {
     }
 
     Vcq& operator=(Vcq&& other) noexcept {
+        if (this == &other) {
+            return *this;
+        }
+
         const auto read_offset = _read - _buffer;
         for (size_t i = 0; i < _size; ++i) {
             const auto j =
-- 
2.43.0


From 16a0aafc5452f7f44417f8cd635aeb266617c81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:03 +0000
Subject: [PATCH 20/66] fix: iterating an empty Vcq visits unconstructed
 elements

---
 include/efp/cyclic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index 97fca09..529a88d 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -349,11 +349,11 @@ class Vcq {
     }
 
     const A* end() const {
-        return _write > _read ? _write : _write + ct_capacity;
+        return _read + _size;
     }
 
     A* end() {
-        return _write > _read ? _write : _write + ct_capacity;
+        return _read + _size;
     }
 
   private:
-- 
2.43.0


From c06ef1556434790b23d7c82e56030a5add0c8538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:03 +0000
Subject: [PATCH 21/66] fix: pushing a full Vcq's own oldest element reads it
 after its destruction

---
 include/efp/cyclic.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index 529a88d..c167d7a 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -289,7 +289,10 @@ class Vcq {
         return _read[index];
     }
 
-    void push_back(const A& value) {
+    void push_back(const A& value_) {
+        // value_ may be the element to be destroyed
+        const A value(value_);
+
         if (_size == ct_capacity) {  // Has to destroy the oldest element if the buffer is full
             _write->~A();
             (_write + ct_capacity)->~A();
-- 
2.43.0


From ae0936807403afa0caf5d384cb060e162569001d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:57 +0000
Subject: [PATCH 22/66] fix: cartesian_for_each_mut passes a const copy of all
 but the last argument's elements

---
 include/efp/prelude.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index 8a9fc99..486dd20 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -425,7 +425,7 @@ void cartesian_for_each_mut(const F& f, As& as, Ass&... ass) {
     const auto as_len = length(as);
 
     for (size_t i = 0; i < as_len; ++i) {
-        const auto a = nth(i, as);
+        auto& a = nth(i, as);
         const auto inner = [&](Element<Ass>&... xs) { f(a, xs...); };
 
         cartesian_for_each_mut(inner, ass...);
-- 
2.43.0


From e82ddc37bd43535bc38da92f4f10fa261971937f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:21 +0000
Subject: [PATCH 23/66] fix: append joins its arguments in an order that
 depends on the compiler

---
 include/efp/prelude.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index 486dd20..a200295 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -241,7 +241,11 @@ auto append(const As& as, const Ass&... ass) -> AppendReturn<As, Ass...> {
     }
 
     size_t idx = 0;
-    execute_pack(detail::append_impl(idx, res, as), detail::append_impl(idx, res, ass)...);
+    // Braced list, as function arguments are evaluated in unspecified order
+    const Unit in_order[] = {
+        detail::append_impl(idx, res, as),
+        detail::append_impl(idx, res, ass)...};
+    static_cast<void>(in_order);
 
     return res;
 }
-- 
2.43.0


From 2ff67a307e52273f4c14e65b4da7bf83ca2dea76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:59 +0000
Subject: [PATCH 24/66] fix: take_while and drop_while do not compile

---
 include/efp/prelude.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index a200295..0bbef28 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -891,7 +891,7 @@ auto take_while(const F& f, const As& as) -> TakeWhileReturn<As> {
         ++i;
     }
 
-    return take(i, as);
+    return TakeWhileReturn<As>(data(as), i);
 }
 
 // drop_while
@@ -911,7 +911,7 @@ auto drop_while(const F& f, const As& as) -> DropWhileReturn<As> {
         ++i;
     }
 
-    return drop(i, as);
+    return DropWhileReturn<As>(data(as) + i, as_len - i);
 }
 
 // elem
-- 
2.43.0


From ed03acb43e5c41789c64893d3ccb5fbf4774aba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:59 +0000
Subject: [PATCH 25/66] fix: data of a mutable std::string does not compile
 before C++17

---
 include/efp/sequence.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index b122a29..c7536d3 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -1607,7 +1607,7 @@ constexpr auto data(const std::basic_string<A>& as) -> const A* {
 
 template<typename A>
 constexpr auto data(std::basic_string<A>& as) -> A* {
-    return as.data();
+    return &as[0];
 }
 
 };  // namespace efp
-- 
2.43.0


From 14ea2b2662b3bb4449e95c2a1d15f1aab9ce9b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:32 +0000
Subject: [PATCH 26/66] fix: slice reaches outside the sequence when a bound
 exceeds its length

---
 include/efp/prelude.hpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index 0bbef28..aa50d5d 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -855,9 +855,21 @@ auto slice_unsafe(S start, E end, As& as) -> SliceUnsafeReturn<S, E, As, false>
 
 // SliceReturn
 
+namespace detail {
+    template<typename S, typename E>
+    struct SliceLengthImpl {
+        using Type = decltype(efp::declval<E>() - efp::declval<S>());
+    };
+
+    template<size_t s, size_t e>
+    struct SliceLengthImpl<Size<s>, Size<e>> {
+        using Type = Size<(e > s ? e - s : 0)>;
+    };
+}  // namespace detail
+
 template<typename S, typename E, typename As, bool is_const>
 using SliceReturn = TakeReturn<
-    decltype(efp::declval<E>() - efp::declval<S>()),
+    typename detail::SliceLengthImpl<S, E>::Type,
     DropReturn<S, As, is_const>,
     is_const>;
 
@@ -866,12 +878,20 @@ using SliceReturn = TakeReturn<
 // todo Optimization
 template<typename S, typename E, typename As>
 auto slice(S start, E end, const As& as) -> SliceReturn<S, E, As, true> {
-    return SliceReturn<S, E, As, true>(data(as) + start, end - start);
+    // Safeguarding against bounds beyond length(as) or in reverse order
+    const size_t bound_end = min(static_cast<size_t>(end), static_cast<size_t>(length(as)));
+    const size_t bound_start = min(static_cast<size_t>(start), bound_end);
+
+    return SliceReturn<S, E, As, true>(data(as) + bound_start, bound_end - bound_start);
 }
 
 template<typename S, typename E, typename As>
 auto slice(S start, E end, As& as) -> SliceReturn<S, E, As, false> {
-    return SliceReturn<S, E, As, false>(data(as) + start, end - start);
+    // Safeguarding against bounds beyond length(as) or in reverse order
+    const size_t bound_end = min(static_cast<size_t>(end), static_cast<size_t>(length(as)));
+    const size_t bound_start = min(static_cast<size_t>(start), bound_end);
+
+    return SliceReturn<S, E, As, false>(data(as) + bound_start, bound_end - bound_start);
 }
 
 // take_while
-- 
2.43.0


From 4bf008324bf88c1b1bbd4e843e04d20b3b1591ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:48 +0000
Subject: [PATCH 27/66] fix: moving out of a const Enum does not compile

---
 include/efp/enum.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/enum.hpp b/include/efp/enum.hpp
index e81e4f3..7f9e53e 100644
--- a/include/efp/enum.hpp
+++ b/include/efp/enum.hpp
@@ -358,7 +358,7 @@ namespace detail {
                 throw RuntimeError("Invalid alternative index");
             }
 
-            return efp::move(*reinterpret_cast<Alt*>(&_storage));
+            return efp::move(*reinterpret_cast<const Alt*>(&_storage));
         }
 
         template<typename Alt>
@@ -376,7 +376,7 @@ namespace detail {
                 throw RuntimeError("Invalid alternative index");
             }
 
-            return efp::move(*reinterpret_cast<PackAt<i, A, As...>*>(&_storage));
+            return efp::move(*reinterpret_cast<const PackAt<i, A, As...>*>(&_storage));
         }
 
         template<uint8_t i>
-- 
2.43.0


From ba4571f91f9c3f29d0719506e38ebf2afe2d7894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:48 +0000
Subject: [PATCH 28/66] fix: an Enum of 129 to 256 alternatives does not
 compile

---
 include/efp/enum.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/efp/enum.hpp b/include/efp/enum.hpp
index 7f9e53e..64c6823 100644
--- a/include/efp/enum.hpp
+++ b/include/efp/enum.hpp
@@ -8,7 +8,7 @@ namespace efp {
 namespace detail {
 
     // Use bit operation and recursion
-    constexpr uint8_t power_2_ceiling(uint8_t n, uint8_t power = 2) {
+    constexpr size_t power_2_ceiling(size_t n, size_t power = 2) {
         return (power >= n) ? power - 1 : power_2_ceiling(n, power << 1);
     }
 
@@ -28,10 +28,10 @@ namespace detail {
 
     // clang-format on
 
-    template<uint8_t stamp_n, uint8_t alt_num, template<uint8_t> class Case, typename... Args>
+    template<uint8_t stamp_n, size_t alt_num, template<uint8_t> class Case, typename... Args>
     struct _EnumSwitch {};
 
-    template<uint8_t alt_num, template<uint8_t> class Case, typename... Args>
+    template<size_t alt_num, template<uint8_t> class Case, typename... Args>
     struct _EnumSwitch<2 - 1, alt_num, Case, Args...> {
         static auto call(uint8_t index, Args&&... args)
             -> decltype(Case<0>::call(std::forward<Args>(args)...)) {
@@ -43,7 +43,7 @@ namespace detail {
         }
     };
 
-    template<uint8_t alt_num, template<uint8_t> class Case, typename... Args>
+    template<size_t alt_num, template<uint8_t> class Case, typename... Args>
     struct _EnumSwitch<4 - 1, alt_num, Case, Args...> {
         static auto call(uint8_t index, Args&&... args)
             -> decltype(Case<0>::call(std::forward<Args>(args)...)) {
@@ -55,7 +55,7 @@ namespace detail {
         }
     };
 
-    template<uint8_t alt_num, template<uint8_t> class Case, typename... Args>
+    template<size_t alt_num, template<uint8_t> class Case, typename... Args>
     struct _EnumSwitch<8 - 1, alt_num, Case, Args...> {
         static auto call(uint8_t index, Args&&... args)
             -> decltype(Case<0>::call(std::forward<Args>(args)...)) {
@@ -67,7 +67,7 @@ namespace detail {
         }
     };
 
-    template<uint8_t alt_num, template<uint8_t> class Case, typename... Args>
+    template<size_t alt_num, template<uint8_t> class Case, typename... Args>
     struct _EnumSwitch<16 - 1, alt_num, Case, Args...> {
         static auto call(uint8_t index, Args&&... args)
             -> decltype(Case<0>::call(std::forward<Args>(args)...)) {
@@ -79,7 +79,7 @@ namespace detail {
         }
     };
 
-    template<uint8_t alt_num, template<uint8_t> class Case, typename... Args>
+    template<size_t alt_num, template<uint8_t> class Case, typename... Args>
     struct _EnumSwitch<32 - 1, alt_num, Case, Args...> {
         static auto call(uint8_t index, Args&&... args)
             -> decltype(Case<0>::call(std::forward<Args>(args)...)) {
@@ -91,7 +91,7 @@ namespace detail {
         }
     };
 
-    template<uint8_t alt_num, template<uint8_t> class Case, typename... Args>
+    template<size_t alt_num, template<uint8_t> class Case, typename... Args>
     struct _EnumSwitch<64 - 1, alt_num, Case, Args...> {
         static auto call(uint8_t index, Args&&... args)
             -> decltype(Case<0>::call(std::forward<Args>(args)...)) {
@@ -103,7 +103,7 @@ namespace detail {
         }
     };
 
-    template<uint8_t alt_num, template<uint8_t> class Case, typename... Args>
+    template<size_t alt_num, template<uint8_t> class Case, typename... Args>
     struct _EnumSwitch<128 - 1, alt_num, Case, Args...> {
         static auto call(uint8_t index, Args&&... args)
             -> decltype(Case<0>::call(std::forward<Args>(args)...)) {
@@ -115,7 +115,7 @@ namespace detail {
         }
     };
 
-    template<uint8_t alt_num, template<uint8_t> class Case, typename... Args>
+    template<size_t alt_num, template<uint8_t> class Case, typename... Args>
     struct _EnumSwitch<256 - 1, alt_num, Case, Args...> {
         static auto call(uint8_t index, Args&&... args)
             -> decltype(Case<0>::call(std::forward<Args>(args)...)) {
@@ -138,7 +138,7 @@ namespace detail {
 #undef EFP_STAMP128
 #undef EFP_STAMP256
 
-    template<uint8_t alt_num, template<uint8_t> class Case, typename... Args>
+    template<size_t alt_num, template<uint8_t> class Case, typename... Args>
     using EnumSwitch = _EnumSwitch<power_2_ceiling(alt_num), alt_num, Case, Args...>;
 
     // todo Maybe support more than 256 alternatives
@@ -237,7 +237,7 @@ namespace detail {
     template<typename A, typename... As>
     class EnumBase {
     public:
-        constexpr static uint8_t alt_num = sizeof...(As) + 1;
+        constexpr static size_t alt_num = sizeof...(As) + 1;
 
         // Default constructor initializes the first alternative with default constructor
         EnumBase() : _index {0} {
-- 
2.43.0


From 73b508da34401dc1e02f94a473f0a71296c552e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:09 +0000
Subject: [PATCH 29/66] fix: mapping, applying or binding a const Maybe as a
 member does not compile

---
 include/efp/maybe.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/efp/maybe.hpp b/include/efp/maybe.hpp
index d6d04a5..1977792 100644
--- a/include/efp/maybe.hpp
+++ b/include/efp/maybe.hpp
@@ -59,7 +59,7 @@ public:
     }
 
     template<typename F>
-    auto fmap(const F& f) -> Enum<Nothing, InvokeResult<F, A>> const {
+    auto fmap(const F& f) const -> Enum<Nothing, InvokeResult<F, A>> {
         if (has_value())
             return f(value());
         else
@@ -67,7 +67,7 @@ public:
     }
 
     template<typename F>
-    auto ap(const Enum<Nothing, F>& mf) -> Enum<Nothing, InvokeResult<F, A>> const {
+    auto ap(const Enum<Nothing, F>& mf) const -> Enum<Nothing, InvokeResult<F, A>> {
         if (has_value() && mf.has_value())
             return mf.value()(value());
         else
@@ -75,8 +75,8 @@ public:
     }
 
     template<typename F>
-    auto bind(const F& f)
-        -> EnableIf<IsMaybe<InvokeResult<F, A>>::value, InvokeResult<F, A>> const {
+    auto bind(const F& f) const
+        -> EnableIf<IsMaybe<InvokeResult<F, A>>::value, InvokeResult<F, A>> {
         if (has_value())
             return f(value());
         else
@@ -84,8 +84,8 @@ public:
     }
 
     template<typename F>
-    auto operator>>=(const F& f)
-        -> EnableIf<IsMaybe<InvokeResult<F, A>>::value, InvokeResult<F, A>> const {
+    auto operator>>=(const F& f) const
+        -> EnableIf<IsMaybe<InvokeResult<F, A>>::value, InvokeResult<F, A>> {
         if (has_value())
             return f(value());
         else
-- 
2.43.0


From 28f68583c48ccb4292d7d9eb8ece27e7ea9fe59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:09 +0000
Subject: [PATCH 30/66] fix: comparing two Maybe does not compile

---
 include/efp/maybe.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/efp/maybe.hpp b/include/efp/maybe.hpp
index 1977792..9d8147e 100644
--- a/include/efp/maybe.hpp
+++ b/include/efp/maybe.hpp
@@ -7,7 +7,15 @@
 
 namespace efp {
 
-struct Nothing {};
+struct Nothing {
+    constexpr bool operator==(const Nothing&) const noexcept {
+        return true;
+    }
+
+    constexpr bool operator!=(const Nothing&) const noexcept {
+        return false;
+    }
+};
 
 constexpr Nothing nothing;
 
-- 
2.43.0


From c3a67f2f6ecc25a0349490087e54669b6941f6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:57 +0000
Subject: [PATCH 31/66] fix: sort leaves vectors of more than 32 elements
 unsorted

---
 include/efp/sort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/sort.hpp b/include/efp/sort.hpp
index afb6be4..7efddd0 100644
--- a/include/efp/sort.hpp
+++ b/include/efp/sort.hpp
@@ -156,7 +156,7 @@ void timsort_merge(Vector<A>& arr, size_t start, size_t mid, size_t end, const F
     size_t start2 = mid + 1;
 
     // If the direct merge is already sorted
-    if (!comp(arr[mid], arr[start2]))
+    if (!comp(arr[start2], arr[mid]))
         return;
 
     // Two posize_ters to masize_tain start of both arrays to merge
-- 
2.43.0


From d74ba656c572852c6674f75238ab23d57589a302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:53 +0000
Subject: [PATCH 32/66] fix: _sum and _product accumulate in int, _maximum of
 negative floating numbers is wrong

---
 include/efp/meta.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/efp/meta.hpp b/include/efp/meta.hpp
index 6e531f7..91eea0b 100644
--- a/include/efp/meta.hpp
+++ b/include/efp/meta.hpp
@@ -798,25 +798,25 @@ constexpr bool _any(const bool (&bs)[n]) {
 // _maximum :: [A] -> A
 template<typename A, size_t n>
 constexpr A _maximum(const A (&as)[n]) {
-    return _foldl(max<A>, NumericLimits<A>::min(), as);
+    return _foldl(max<A>, as[0], as);
 }
 
 // _minimum :: [A] -> A
 template<typename A, size_t n>
 constexpr A _minimum(const A (&as)[n]) {
-    return _foldl(min<A>, NumericLimits<A>::max(), as);
+    return _foldl(min<A>, as[0], as);
 }
 
 // _sum :: [A] -> A
 template<typename A, size_t n>
 constexpr A _sum(const A (&as)[n]) {
-    return _foldl(op_add<A>, 0, as);
+    return _foldl(op_add<A>, static_cast<A>(0), as);
 }
 
 // _product :: [A] -> A
 template<typename A, size_t n>
 constexpr A _product(const A (&as)[n]) {
-    return _foldl(op_mul<A>, 1, as);
+    return _foldl(op_mul<A>, static_cast<A>(1), as);
 }
 
 // All
-- 
2.43.0


From 6aebc796f1a5af82c8d724156b368690b00fa922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:53 +0000
Subject: [PATCH 33/66] fix: max_elem of negative floating numbers, min_elem
 and max_elem of infinities are wrong

---
 include/efp/numeric.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/efp/numeric.hpp b/include/efp/numeric.hpp
index 26dc0bc..b646d28 100644
--- a/include/efp/numeric.hpp
+++ b/include/efp/numeric.hpp
@@ -113,12 +113,27 @@ namespace efp {
 
 template<typename As>
 constexpr Element<As> max_elem(const As& as) {
-    return foldl(max, NumericLimits<Element<As>>::min(), as);
+    // The least value of the type. NumericLimits::min is the least positive one for floating types
+    return foldl(
+        max,
+        static_cast<Element<As>>(
+            NumericLimits<Element<As>>::has_infinity ? -NumericLimits<Element<As>>::infinity()
+                                                     : NumericLimits<Element<As>>::lowest()
+        ),
+        as
+    );
 }
 
 template<typename As>
 constexpr Element<As> min_elem(const As& as) {
-    return foldl(min, NumericLimits<Element<As>>::max(), as);
+    return foldl(
+        min,
+        static_cast<Element<As>>(
+            NumericLimits<Element<As>>::has_infinity ? NumericLimits<Element<As>>::infinity()
+                                                     : NumericLimits<Element<As>>::max()
+        ),
+        as
+    );
 }
 
 template<typename As>
-- 
2.43.0


From 85bf0908c9d76b32f27e0d139dbaa7d6349ac4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:45 +0000
Subject: [PATCH 34/66] fix: linear_regression_with_index and detrend overflow
 int for more than 1290 samples

---
 include/efp/scientific.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/scientific.hpp b/include/efp/scientific.hpp
index a5a4ad9..7ab8874 100644
--- a/include/efp/scientific.hpp
+++ b/include/efp/scientific.hpp
@@ -152,7 +152,7 @@ Tuple<R, R> linear_regression_with_index(const As& as) {
     };
 
     const auto ss_ia = sum(map_with_index(get_ss_ia, as));
-    const auto ss_ii = n * (n * n - 1) / 12.;
+    const auto ss_ii = n * (static_cast<double>(n) * n - 1) / 12.;
 
     const auto beta_1 = ss_ia / ss_ii;
     const auto beta_2 = as_mean - (beta_1 * mean_is);
-- 
2.43.0


From 95ab66ae2968f55644545a5dbb5822469787a161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:45 +0000
Subject: [PATCH 35/66] fix: linear_regression_with_index and detrend do not
 compile for float results

---
 include/efp/scientific.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/scientific.hpp b/include/efp/scientific.hpp
index 7ab8874..739629d 100644
--- a/include/efp/scientific.hpp
+++ b/include/efp/scientific.hpp
@@ -157,7 +157,7 @@ Tuple<R, R> linear_regression_with_index(const As& as) {
     const auto beta_1 = ss_ia / ss_ii;
     const auto beta_2 = as_mean - (beta_1 * mean_is);
 
-    return tuple(beta_1, beta_2);
+    return tuple(static_cast<R>(beta_1), static_cast<R>(beta_2));
 }
 
 template<typename R, typename As>
-- 
2.43.0


From 03b1d73a6911683ded353717a7f488cf1b503fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:26 +0000
Subject: [PATCH 36/66] fix: DoubleBuffer of standard library types does not
 compile (ambiguous swap)

---
 include/efp/concurrency.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/concurrency.hpp b/include/efp/concurrency.hpp
index 5f137bb..f4d5ad5 100644
--- a/include/efp/concurrency.hpp
+++ b/include/efp/concurrency.hpp
@@ -219,7 +219,7 @@ public:
 
     void swap_buffer() {
         _spinlock.lock();
-        swap(_write_buffer, _read_buffer);
+        efp::swap(_write_buffer, _read_buffer);
         _spinlock.unlock();
     }
 
-- 
2.43.0


From c7a8bca9d1bc3726fcafa8681405a97498e5d0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:59 +0000
Subject: [PATCH 37/66] fix: NonBlockingQ::is_empty races with enqueue and
 dequeue

---
 include/efp/concurrency.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/efp/concurrency.hpp b/include/efp/concurrency.hpp
index f4d5ad5..5433e77 100644
--- a/include/efp/concurrency.hpp
+++ b/include/efp/concurrency.hpp
@@ -128,6 +128,7 @@ public:
     }
 
     bool is_empty() {
+        std::lock_guard<std::mutex> lock(_m);
         return _q.empty();
     }
 
@@ -169,6 +170,7 @@ public:
     }
 
     bool is_empty() {
+        std::lock_guard<std::mutex> lock(_m);
         return _q.empty();
     }
 
-- 
2.43.0


From 89060e6b926a872a6df4af40e65c136b6658e8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:59 +0000
Subject: [PATCH 38/66] fix: heapsort and quicksort of standard library types
 do not compile (ambiguous swap)

---
 include/efp/sort.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/efp/sort.hpp b/include/efp/sort.hpp
index 7efddd0..331381f 100644
--- a/include/efp/sort.hpp
+++ b/include/efp/sort.hpp
@@ -65,7 +65,7 @@ void max_heapify_by(Vector<A>& arr, size_t n, size_t i, const F& comp) {
         largest = right;
 
     if (largest != i) {
-        swap(arr[i], arr[largest]);
+        efp::swap(arr[i], arr[largest]);
         max_heapify_by(arr, n, largest, comp);
     }
 }
@@ -84,7 +84,7 @@ void heapsort_by(Vector<A>& arr, const F& comp) {
 
     // One by one extract an element from heap
     for (size_t i = n; i-- > 1;) {  // Start from n and decrement; stop at 1 to avoid underflow
-        swap(arr[0], arr[i]);       // Move current root to end
+        efp::swap(arr[0], arr[i]);  // Move current root to end
         max_heapify_by(arr, i, 0, comp);  // call max heapify on the reduced heap
     }
 }
@@ -122,10 +122,10 @@ size_t partition_by(Vector<A>& arr, size_t low, size_t high, const F& comp) {
     for (size_t j = low; j < high; j++) {
         if (comp(arr[j], pivot)) {
             i++;
-            swap(arr[i], arr[j]);
+            efp::swap(arr[i], arr[j]);
         }
     }
-    swap(arr[i + 1], arr[high]);
+    efp::swap(arr[i + 1], arr[high]);
     return (i + 1);
 }
 
-- 
2.43.0


From 4e23a33863b31617358f27a75a6d2c54a0561eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:08 +0000
Subject: [PATCH 39/66] fix: composed functions cannot be called with standard
 library types (ambiguous forward)

---
 include/efp/prelude.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index aa50d5d..eda6942 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -31,8 +31,8 @@ struct Composed<F> {
     Composed(const F& f) : f(f) {}
 
     template<typename... Arg>
-    inline auto operator()(Arg&&... arg) const -> decltype(f(forward<Arg>(arg)...)) {
-        return f(forward<Arg>(arg)...);
+    inline auto operator()(Arg&&... arg) const -> decltype(f(efp::forward<Arg>(arg)...)) {
+        return f(efp::forward<Arg>(arg)...);
     }
 };
 
@@ -44,8 +44,8 @@ struct Composed<F, Fs...> {
     Composed(const F& f, const Fs&... fs) : f(f), fs(Composed<Fs...>(fs...)) {}
 
     template<typename... Arg>
-    inline auto operator()(Arg&&... arg) const -> decltype(f(fs(forward<Arg>(arg)...))) {
-        return f(fs(forward<Arg>(arg)...));
+    inline auto operator()(Arg&&... arg) const -> decltype(f(fs(efp::forward<Arg>(arg)...))) {
+        return f(fs(efp::forward<Arg>(arg)...));
     }
 };
 
-- 
2.43.0


From 1eefc4fbf583a205d5a200ee95a6fb7227a318f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:08 +0000
Subject: [PATCH 40/66] fix: TupleLeaf of standard library types cannot be
 built from rvalues (ambiguous move)

---
 include/efp/meta.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/meta.hpp b/include/efp/meta.hpp
index 91eea0b..2bc3eb8 100644
--- a/include/efp/meta.hpp
+++ b/include/efp/meta.hpp
@@ -514,7 +514,7 @@ public:
     TupleLeaf(const A& value) : _value(value) {}
 
     // Rvalue constructor, using efp::move to ensure the object is moved
-    TupleLeaf(A&& value) : _value(move(value)) {}
+    TupleLeaf(A&& value) : _value(efp::move(value)) {}
 
     ~TupleLeaf() {}
 
-- 
2.43.0


From f9163048b0a8637193a4cc5dbe6fe4842fae1a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:59 +0000
Subject: [PATCH 41/66] fix: func_ptr cannot adapt callables that take
 move-only arguments

---
 include/efp/c_utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/c_utility.hpp b/include/efp/c_utility.hpp
index 439f0f3..7d2e9cd 100644
--- a/include/efp/c_utility.hpp
+++ b/include/efp/c_utility.hpp
@@ -29,7 +29,7 @@ struct LambdaPointer {
     template<typename... Args>
     struct Helper<Tuple<Args...>> {
         static InvokeResult<F, Args...> call(Args... args) {
-            return (InvokeResult<F, Args...>)(*(F*)inner_ptr)(args...);
+            return (InvokeResult<F, Args...>)(*(F*)inner_ptr)(efp::forward<Args>(args)...);
         }
     };
 
-- 
2.43.0


From 76c46e050cf1c3c5e290eed9254d410738de6186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:59 +0000
Subject: [PATCH 42/66] fix: func_ptr, tuple and match do not compile with
 noexcept callables since C++17

---
 include/efp/meta.hpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/include/efp/meta.hpp b/include/efp/meta.hpp
index 2bc3eb8..5cccdbe 100644
--- a/include/efp/meta.hpp
+++ b/include/efp/meta.hpp
@@ -475,6 +475,14 @@ namespace detail {
         using Type = Ret (*)(Args...);
     };
 
+#if __cplusplus >= 201703L
+    // noexcept is part of the type since C++17
+    template<typename Ret, typename... Args>
+    struct FuncToFuncPtrImpl<Ret(Args...) noexcept> {
+        using Type = Ret (*)(Args...) noexcept;
+    };
+#endif
+
     // Specializations for member functions
     template<typename Ret, typename ClassType, typename... Args>
     struct FuncToFuncPtrImpl<Ret (ClassType::*)(Args...)> {
@@ -734,6 +742,24 @@ namespace detail {
     struct ArgumentsImpl<R (A::*)(Args...) const, void> {
         using Type = Tuple<Args...>;
     };
+
+#if __cplusplus >= 201703L
+    // noexcept is part of the type since C++17
+    template<typename R, typename... Args>
+    struct ArgumentsImpl<R (*)(Args...) noexcept, void> {
+        using Type = Tuple<Args...>;
+    };
+
+    template<typename R, typename A, typename... Args>
+    struct ArgumentsImpl<R (A::*)(Args...) noexcept, void> {
+        using Type = Tuple<Args...>;
+    };
+
+    template<typename R, typename A, typename... Args>
+    struct ArgumentsImpl<R (A::*)(Args...) const noexcept, void> {
+        using Type = Tuple<Args...>;
+    };
+#endif
 }  // namespace detail
 
 template<typename F>
-- 
2.43.0


From 65dfc1946a61d523dcae69a0895380312469cfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:02 +0000
Subject: [PATCH 43/66] fix: moving a File loses its mode and leaks the file it
 is assigned over

---
 include/efp/io.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index 82daea1..35241f1 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -38,12 +38,16 @@ public:
     File& operator=(const File&) = delete;
 
     File(File&& other) noexcept : _file(other._file) {
+        std::memcpy(_mode, other._mode, sizeof(_mode));
         other._file = nullptr;
     }
 
     File& operator=(File&& other) noexcept {
         if (this != &other) {
+            if (_file)
+                std::fclose(_file);
             _file = other._file;
+            std::memcpy(_mode, other._mode, sizeof(_mode));
             other._file = nullptr;
         }
         return *this;
-- 
2.43.0


From df8cbb9e561ff841dcfc8bd43dd1edbbd04026e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:02 +0000
Subject: [PATCH 44/66] fix: File::write of a String in text mode drops
 everything from the first null character on

---
 include/efp/io.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index 35241f1..1ffdd3b 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -132,7 +132,9 @@ public:
             size_t written = std::fwrite(data.data(), sizeof(char), data.size(), _file);
             return written == data.size();
         } else {
-            return std::fputs(data.c_str(), _file) != EOF;
+            // Not fputs, which would stop at the first null character
+            size_t written = std::fwrite(data.data(), sizeof(char), data.size(), _file);
+            return written == data.size();
         }
     }
 
-- 
2.43.0


From f66a89bd88cb9caa5f0461ea6036d218aa89338f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:02 +0000
Subject: [PATCH 45/66] fix: flush, seek and tell of a closed or moved-from
 File use a null FILE

---
 include/efp/io.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index 1ffdd3b..02c4e51 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -139,14 +139,20 @@ public:
     }
 
     int flush() {
+        if (_file == nullptr)
+            return EOF;
+
         return std::fflush(_file);
     }
 
     bool seek(long offset) {
-        return std::fseek(_file, offset, SEEK_SET) == 0;
+        return _file && std::fseek(_file, offset, SEEK_SET) == 0;
     }
 
     int tell() {
+        if (_file == nullptr)
+            return -1;
+
         return std::ftell(_file);
     }
 
-- 
2.43.0


From 0d76e812ebdd4a14781dfefe9b8f736d1ecca2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:02 +0000
Subject: [PATCH 46/66] fix: File whose close failed is closed again by its
 destructor

---
 include/efp/io.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index 02c4e51..41365d4 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -157,9 +157,11 @@ public:
     }
 
     bool close() {
-        if (_file && std::fclose(_file) != EOF) {
+        if (_file) {
+            // The file is closed even if fclose fails
+            const int res = std::fclose(_file);
             _file = nullptr;
-            return true;
+            return res != EOF;
         }
 
         return false;
-- 
2.43.0


From 3aa84ac97253faf762749fd5724b70f289cc812a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:02 +0000
Subject: [PATCH 47/66] fix: File::tell truncates positions beyond INT_MAX

---
 include/efp/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index 41365d4..000c83e 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -149,7 +149,7 @@ public:
         return _file && std::fseek(_file, offset, SEEK_SET) == 0;
     }
 
-    int tell() {
+    long tell() {
         if (_file == nullptr)
             return -1;
 
-- 
2.43.0


From 31d4cf5943481a4db5057ede01e8d5c4a88c1b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:40 +0000
Subject: [PATCH 48/66] fix: Vector and BasicString with another allocator do
 not compile

---
 include/efp/sequence.hpp | 2 +-
 include/efp/string.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index c7536d3..a6f26de 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -1008,7 +1008,7 @@ template<
     typename = void>
 class Vector: public detail::VectorBase<A, Allocator> {
 public:
-    using Base = detail::VectorBase<A>;
+    using Base = detail::VectorBase<A, Allocator>;
     using Base::Base;
 
     bool operator==(const Vector& other) const {
diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 49d7e52..2a0232a 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -21,7 +21,7 @@ template<typename Char, typename Traits, typename Allocator>
 class Vector<Char, Allocator, Traits, EnableIf<detail::IsCharType<Char>::value>>:
     public detail::VectorBase<Char, Allocator> {
 public:
-    using Base = detail::VectorBase<Char>;
+    using Base = detail::VectorBase<Char, Allocator>;
     using Base::Base;
 
     using traits_type = Traits;
-- 
2.43.0


From 6d5f66c121d795e68e706e3f2fb8d6fc5a657bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:40 +0000
Subject: [PATCH 49/66] fix: Vector without storage gives a null block back to
 its allocator

---
 include/efp/sequence.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index a6f26de..7ce6b1c 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -625,7 +625,8 @@ namespace detail {
                     AllocatorTraits<Allocator>::destroy(_allocator, _data + i);
                 }
                 // _allocator.deallocate(_data, _capacity);
-                AllocatorTraits<Allocator>::deallocate(_allocator, _data, _capacity);
+                if (_data)
+                    AllocatorTraits<Allocator>::deallocate(_allocator, _data, _capacity);
 
                 _data = other._data;
                 _size = other._size;
@@ -760,7 +761,8 @@ namespace detail {
                 }
 
                 // _allocator.deallocate(_data, _capacity);
-                AllocatorTraits<Allocator>::deallocate(_allocator, _data, _capacity);
+                if (_data)
+                    AllocatorTraits<Allocator>::deallocate(_allocator, _data, _capacity);
 
                 _data = new_data;
                 _capacity = new_capacity;
@@ -788,7 +790,8 @@ namespace detail {
                     AllocatorTraits<Allocator>::destroy(_allocator, _data + i);
                 }
                 // _allocator.deallocate(_data, _capacity);
-                AllocatorTraits<Allocator>::deallocate(_allocator, _data, _capacity);
+                if (_data)
+                    AllocatorTraits<Allocator>::deallocate(_allocator, _data, _capacity);
 
                 // Update data pointer and capacity
                 _data = new_data;
-- 
2.43.0


From b8634d2db009e8b5b97929077c342a5f87cef2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:40 +0000
Subject: [PATCH 50/66] fix: move-assigned Vector gives its storage back to
 another allocator than it is from

---
 include/efp/sequence.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 7ce6b1c..ab03cbf 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -628,6 +628,8 @@ namespace detail {
                 if (_data)
                     AllocatorTraits<Allocator>::deallocate(_allocator, _data, _capacity);
 
+                // The storage has to be given back to the allocator it is from
+                _allocator = other._allocator;
                 _data = other._data;
                 _size = other._size;
                 _capacity = other._capacity;
-- 
2.43.0


From c75a0865a98d070d4deaa038f32013806dd45633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:40 +0000
Subject: [PATCH 51/66] fix: BasicString(s, count, alloc) ignores the given
 allocator

---
 include/efp/string.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 2a0232a..649e4ea 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -36,6 +36,7 @@ public:
     }
 
     Vector(const Char* s, size_t count, const Allocator& alloc = Allocator()) {
+        Base::_allocator = alloc;
         Base::_size = count;
         Base::_capacity = Base::_size + 1;
         // Base::_data = Base::_allocator.allocate(Base::_capacity);
-- 
2.43.0


From 2f8454cb1ebf3386d220fc0617b9cbea4265f68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:40 +0000
Subject: [PATCH 52/66] fix: Allocator cannot move or emplace elements

---
 include/efp/allocator.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/efp/allocator.hpp b/include/efp/allocator.hpp
index 76c90f4..bcb4d17 100644
--- a/include/efp/allocator.hpp
+++ b/include/efp/allocator.hpp
@@ -6,6 +6,8 @@
 
 #include "efp/cpp_core.hpp"
 
+#include <utility>  // Defines std::forward
+
 namespace efp {
 
 template<typename Alloc>
@@ -77,8 +79,9 @@ public:
         return size_type(-1) / sizeof(T);
     }
 
-    void construct(pointer p, const T& t) {
-        new (p) T(t);
+    template<typename... Args>
+    void construct(pointer p, Args&&... args) {
+        new (p) T(std::forward<Args>(args)...);
     }
 
     void destroy(pointer p) {
-- 
2.43.0


From 46df49cd2a6850f27763300309c564c1164dc320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:57 +0000
Subject: [PATCH 53/66] fix: compare elements with ==, so that nested sequences
 and tuples of sequences can be compared before C++20 (C21)

---
 include/efp/meta.hpp     | 2 +-
 include/efp/sequence.hpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/efp/meta.hpp b/include/efp/meta.hpp
index 5cccdbe..023a75b 100644
--- a/include/efp/meta.hpp
+++ b/include/efp/meta.hpp
@@ -658,7 +658,7 @@ namespace detail {
     struct TupleLeafComparatorImpl {
         template<typename... As>
         static bool compare(const Tuple<As...>& lhs, const Tuple<As...>& rhs) {
-            if (lhs.template get<index>() != rhs.template get<index>())
+            if (!(lhs.template get<index>() == rhs.template get<index>()))
                 return false;
             return TupleLeafComparatorImpl<index - 1>::compare(lhs, rhs);
         }
diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index ab03cbf..08efa25 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -116,7 +116,7 @@ public:
 
     bool operator==(const Array& other) const {
         for (size_t i = 0; i < ct_size; ++i) {
-            if (_data[i] != other._data[i]) {
+            if (!(_data[i] == other._data[i])) {
                 return false;
             }
         }
@@ -341,7 +341,7 @@ public:
         }
 
         for (size_t i = 0; i < _size; ++i) {
-            if (_data[i] != other._data[i]) {
+            if (!(_data[i] == other._data[i])) {
                 return false;
             }
         }
@@ -705,7 +705,7 @@ namespace detail {
             }
 
             for (size_t i = 0; i < _size; ++i) {
-                if (_data[i] != other._data[i]) {
+                if (!(_data[i] == other._data[i])) {
                     return false;
                 }
             }
-- 
2.43.0


From 0483930b2cd5e663b00997bc5ddf624f1dca2ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:18 +0000
Subject: [PATCH 54/66] fix: copy assignment of a vector may fail to allocate,
 its error terminated the program (C20)

---
 include/efp/sequence.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 08efa25..ad41dd1 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -585,7 +585,7 @@ namespace detail {
         }
 
         // todo copy_and_swap
-        VectorBase& operator=(const VectorBase& other) noexcept {
+        VectorBase& operator=(const VectorBase& other) {
             if (this != &other) {
                 for (size_t i = 0; i < _size; ++i) {
                     // _allocator.destroy(_data + i);
-- 
2.43.0


From 96ba382fdad6b9f57c3421127134c901a41cc65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:51 +0000
Subject: [PATCH 55/66] fix: sequence formatters cannot be used through a const
 formatter, so a sequence of sequences could not be formatted (C17)

---
 include/efp/format.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/efp/format.hpp b/include/efp/format.hpp
index 42e2b7d..f8dc9ae 100644
--- a/include/efp/format.hpp
+++ b/include/efp/format.hpp
@@ -58,7 +58,8 @@ struct efp_fmt::formatter<efp::Array<T, ct_size>> {
     }
 
     template<typename FormatContext>
-    auto format(const efp::Array<T, ct_size>& arr, FormatContext& ctx) -> format_context::iterator {
+    auto format(const efp::Array<T, ct_size>& arr, FormatContext& ctx) const
+        -> format_context::iterator {
         return efp_fmt::format_to(ctx.out(), "[{}]", efp_fmt::join(arr.begin(), arr.end(), ", "));
     }
 };
@@ -72,7 +73,7 @@ struct efp_fmt::formatter<efp::ArrVec<T, ct_cap>> {
     }
 
     template<typename FormatContext>
-    auto format(const efp::ArrVec<T, ct_cap>& arrvec, FormatContext& ctx)
+    auto format(const efp::ArrVec<T, ct_cap>& arrvec, FormatContext& ctx) const
         -> format_context::iterator {
         return efp_fmt::format_to(
             ctx.out(),
@@ -91,7 +92,7 @@ struct efp_fmt::formatter<efp::Vector<T, Allocator, Traits>> {
     }
 
     template<typename FormatContext>
-    auto format(const efp::Vector<T, Allocator, Traits>& vec, FormatContext& ctx)
+    auto format(const efp::Vector<T, Allocator, Traits>& vec, FormatContext& ctx) const
         -> format_context::iterator {
         return efp_fmt::format_to(ctx.out(), "[{}]", efp_fmt::join(vec.begin(), vec.end(), ", "));
     }
@@ -106,7 +107,8 @@ struct efp_fmt::formatter<efp::Vcb<T, ct_size>> {
     }
 
     template<typename FormatContext>
-    auto format(const efp::Vcb<T, ct_size>& vcb, FormatContext& ctx) -> format_context::iterator {
+    auto format(const efp::Vcb<T, ct_size>& vcb, FormatContext& ctx) const
+        -> format_context::iterator {
         return efp_fmt::format_to(ctx.out(), "[{}]", efp_fmt::join(vcb.begin(), vcb.end(), ", "));
     }
 };
@@ -120,7 +122,8 @@ struct efp_fmt::formatter<efp::Vcq<T, ct_cap>> {
     }
 
     template<typename FormatContext>
-    auto format(const efp::Vcq<T, ct_cap>& vcq, FormatContext& ctx) -> format_context::iterator {
+    auto format(const efp::Vcq<T, ct_cap>& vcq, FormatContext& ctx) const
+        -> format_context::iterator {
         return efp_fmt::format_to(ctx.out(), "[{}]", efp_fmt::join(vcq.begin(), vcq.end(), ", "));
     }
 };
-- 
2.43.0


From 6f3f8f492bf770600cf47883194f02c91088e77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:51 +0000
Subject: [PATCH 56/66] fix: the formatters of vectors and strings are
 ambiguous for a sequence of strings (C17)

---
 include/efp/format.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/efp/format.hpp b/include/efp/format.hpp
index f8dc9ae..9b19432 100644
--- a/include/efp/format.hpp
+++ b/include/efp/format.hpp
@@ -84,15 +84,15 @@ struct efp_fmt::formatter<efp::ArrVec<T, ct_cap>> {
 };
 
 // Specialize efp_fmt::formatter for efp::Vector
-template<typename T, typename Allocator, typename Traits>
-struct efp_fmt::formatter<efp::Vector<T, Allocator, Traits>> {
+template<typename T, typename Allocator>
+struct efp_fmt::formatter<efp::Vector<T, Allocator, void>> {
     template<typename ParseContext>
     constexpr auto parse(ParseContext& ctx) const -> format_parse_context::iterator {
         return ctx.begin();
     }
 
     template<typename FormatContext>
-    auto format(const efp::Vector<T, Allocator, Traits>& vec, FormatContext& ctx) const
+    auto format(const efp::Vector<T, Allocator, void>& vec, FormatContext& ctx) const
         -> format_context::iterator {
         return efp_fmt::format_to(ctx.out(), "[{}]", efp_fmt::join(vec.begin(), vec.end(), ", "));
     }
-- 
2.43.0


From e5a6da82298c000b77c146c45b968b7ca5e04b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:51 +0000
Subject: [PATCH 57/66] fix: StringView cannot be formatted before C++17 (C17,
 C21)

---
 include/efp/fmt/core.h | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/include/efp/fmt/core.h b/include/efp/fmt/core.h
index 75db77d..caa5c93 100644
--- a/include/efp/fmt/core.h
+++ b/include/efp/fmt/core.h
@@ -347,16 +347,9 @@ EFP_FMT_NORETURN EFP_FMT_API void assert_fail(const char* file, int line, const
     #endif
 #endif
 
-#if defined(EFP_FMT_USE_STRING_VIEW)
+// efp::BasicStringView does not need the string_view of C++17.
 template<typename Char>
 using std_string_view = efp::BasicStringView<Char>;
-#elif defined(EFP_FMT_USE_EXPERIMENTAL_STRING_VIEW)
-template<typename Char>
-using std_string_view = std::experimental::basic_string_view<Char>;
-#else
-template<typename T>
-struct std_string_view {};
-#endif
 
 #ifdef EFP_FMT_USE_INT128
 // Do nothing.
-- 
2.43.0


From 7315027c0073ee6d4de501f74440e450b30f96d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:51 +0000
Subject: [PATCH 58/66] fix: a precision without a number, as in {:.f}, is
 accepted (C17)

---
 include/efp/fmt/core.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/fmt/core.h b/include/efp/fmt/core.h
index caa5c93..dd22917 100644
--- a/include/efp/fmt/core.h
+++ b/include/efp/fmt/core.h
@@ -2557,7 +2557,7 @@ EFP_FMT_CONSTEXPR auto parse_precision(
     basic_format_parse_context<Char>& ctx
 ) -> const Char* {
     ++begin;
-    if (begin == end || *begin == '}') {
+    if (begin == end || !(*begin == '{' || ('0' <= *begin && *begin <= '9'))) {
         throw_format_error("invalid precision");
         return begin;
     }
-- 
2.43.0


From fb9e435ddafd0f52a043d49648bc19aa1e4eeb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:41 +0000
Subject: [PATCH 59/66] fix: a long double far below the precision of {:.2f} is
 rounded up to 0.01 (C17)

---
 include/efp/fmt/format.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/efp/fmt/format.h b/include/efp/fmt/format.h
index 4e3c797..3754c08 100644
--- a/include/efp/fmt/format.h
+++ b/include/efp/fmt/format.h
@@ -3446,8 +3446,12 @@ EFP_FMT_CONSTEXPR20 inline void format_dragon(
     // Generate the given number of digits.
     exp10 -= num_digits - 1;
     if (num_digits <= 0) {
-        denominator *= 10;
-        auto digit = add_compare(numerator, numerator, denominator) > 0 ? '1' : '0';
+        auto digit = '0';
+        // With fewer digits the value is below half a unit of the last place.
+        if (num_digits == 0) {
+            denominator *= 10;
+            digit = add_compare(numerator, numerator, denominator) > 0 ? '1' : '0';
+        }
         buf.push_back(digit);
         return;
     }
-- 
2.43.0


From 1aa903a705f8f405960c4409046981eac484e42a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:20 +0000
Subject: [PATCH 60/66] fix: the shortest text of a long double that is a power
 of two can read back as another number (C17)

---
 include/efp/fmt/format.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/efp/fmt/format.h b/include/efp/fmt/format.h
index 3754c08..11497c1 100644
--- a/include/efp/fmt/format.h
+++ b/include/efp/fmt/format.h
@@ -1849,9 +1849,11 @@ struct basic_fp {
         f = static_cast<F>(u & significand_mask);
         auto biased_e =
             static_cast<int>((u & exponent_mask<Float>()) >> num_float_significand_bits);
-        // The predecessor is closer if n is a normalized power of 2 (f == 0)
-        // other than the smallest normalized number (biased_e > 1).
-        auto is_predecessor_closer = f == 0 && biased_e > 1;
+        // The predecessor is closer if n is a normalized power of 2 (f == 0, or
+        // only the leading bit where it is stored) other than the smallest
+        // normalized number (biased_e > 1).
+        const auto leading_bit = has_implicit_bit<Float>() ? carrier_uint(0) : implicit_bit >> 1;
+        auto is_predecessor_closer = f == static_cast<F>(leading_bit) && biased_e > 1;
         if (biased_e == 0)
             biased_e = 1;  // Subnormals use biased exponent 1 (min exponent).
         else if (has_implicit_bit<Float>())
-- 
2.43.0


From 8a3a096c496c24c79e806352378400dc914d3642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:05 +0000
Subject: [PATCH 61/66] fix: IsInvocableR is always false before C++17 (C21)

---
 include/efp/meta.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/meta.hpp b/include/efp/meta.hpp
index 023a75b..d1f6210 100644
--- a/include/efp/meta.hpp
+++ b/include/efp/meta.hpp
@@ -418,8 +418,8 @@ private:
     // A helper to try invoking the function and check the return type
     template<typename U>
     static auto test(int)
-        -> decltype(std::is_convertible<decltype(std::declval<U>()(std::declval<Args>()...)), R>::
-                        type());
+        -> typename std::is_convertible<decltype(std::declval<U>()(std::declval<Args>()...)), R>::
+            type;
 
     // Fallback if the above test fails
     template<typename>
-- 
2.43.0


From df52f0d7de16ad7f60541cd405f9cb9e3390e9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:15 +0000
Subject: [PATCH 62/66] fix: IsInvocableR<void, ...> is false before C++17 for
 callables that return a value (C21)

---
 include/efp/meta.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/efp/meta.hpp b/include/efp/meta.hpp
index d1f6210..57efcfa 100644
--- a/include/efp/meta.hpp
+++ b/include/efp/meta.hpp
@@ -418,8 +418,9 @@ private:
     // A helper to try invoking the function and check the return type
     template<typename U>
     static auto test(int)
-        -> typename std::is_convertible<decltype(std::declval<U>()(std::declval<Args>()...)), R>::
-            type;
+        -> Bool<
+            std::is_void<R>::value
+            || std::is_convertible<decltype(std::declval<U>()(std::declval<Args>()...)), R>::value>;
 
     // Fallback if the above test fails
     template<typename>
-- 
2.43.0


From 9ad2406f0570c45feedf72469f8db6a0d453d13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:50 +0000
Subject: [PATCH 63/66] fix: a long double just below a power of ten is written
 with a leading zero (C17)

---
 include/efp/fmt/format.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/efp/fmt/format.h b/include/efp/fmt/format.h
index 11497c1..20c2cf6 100644
--- a/include/efp/fmt/format.h
+++ b/include/efp/fmt/format.h
@@ -3403,7 +3403,10 @@ EFP_FMT_CONSTEXPR20 inline void format_dragon(
         upper = &lower;
     bool shortest = num_digits < 0;
     if ((flags & dragon::fixup) != 0) {
-        if (add_compare(numerator, *upper, denominator) + even <= 0) {
+        // With a given number of digits only values below the estimate need it; with the
+        // shortest one those that round to it do not.
+        if (shortest ? add_compare(numerator, *upper, denominator) + even <= 0
+                     : compare(numerator, denominator) < 0) {
             --exp10;
             numerator *= 10;
             if (num_digits < 0) {
-- 
2.43.0


From 6e3f8f2dd26ca4902839e9d901066c89b9d58666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:56 +0000
Subject: [PATCH 64/66] fix: a string built from a range that can be read only
 once has unspecified characters (C04)

---
 include/efp/string.hpp | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 649e4ea..ef73dfe 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -64,20 +64,9 @@ public:
     template<typename InputIt>
     Vector(InputIt first, InputIt last, const Allocator& alloc = Allocator()) {
         Base::_allocator = alloc;
-        // First pass: Count the number of elements to determine size
-        for (InputIt it = first; it != last; ++it) {
-            ++Base::_size;
-        }
-        Base::_capacity = Base::_size + 1;
-
-        // Allocate memory for the elements
-        // Base::_data = Base::_allocator.allocate(Base::_capacity);
-        Base::_data = AllocatorTraits<Allocator>::allocate(Base::_allocator, Base::_capacity);
-
-        // Second pass: Copy-construct elements from the range
-        size_t i = 0;
-        for (InputIt it = first; it != last; ++it, ++i) {
-            AllocatorTraits<Allocator>::construct(Base::_allocator, Base::_data + i, *it);
+        // Only one pass, as the elements of an input range can be read only once
+        for (; first != last; ++first) {
+            Base::push_back(*first);
         }
     }
 
-- 
2.43.0


From 24091af44d1d5230998606d2599409f70c7053f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:11 +0000
Subject: [PATCH 65/66] fix: copying or moving an element that can be built
 from a list of its own kind makes a list of it (C02, C10, C11)

---
 include/efp/cyclic.hpp   | 10 +++++-----
 include/efp/enum.hpp     |  4 ++--
 include/efp/sequence.hpp | 28 ++++++++++++++--------------
 3 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index c167d7a..db20583 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -83,8 +83,8 @@ class Vcb {
         _data->~A();
         (_data + ct_size)->~A();
 
-        new (_data) A {value};
-        new (_data + ct_size) A {value};
+        new (_data) A(value);
+        new (_data + ct_size) A(value);
 
         ++_data;
         _data -= ct_size * (_data == _buffer + ct_capacity);
@@ -298,8 +298,8 @@ class Vcq {
             (_write + ct_capacity)->~A();
         }
 
-        new (_write) A {value};
-        new (_write + ct_capacity) A {value};
+        new (_write) A(value);
+        new (_write + ct_capacity) A(value);
 
         ++_write;
         _write -= ct_capacity * (_write == _buffer + ct_capacity);
@@ -315,7 +315,7 @@ class Vcq {
     // ! Undefined if empty
 
     A pop_front() {
-        A value {efp::move(*_read)};
+        A value(efp::move(*_read));
 
         _read->~A();
         (_read + ct_capacity)->~A();
diff --git a/include/efp/enum.hpp b/include/efp/enum.hpp
index 64c6823..3f45a43 100644
--- a/include/efp/enum.hpp
+++ b/include/efp/enum.hpp
@@ -416,7 +416,7 @@ namespace detail {
             using Alt = PackAt<i, A, As...>;
 
             static inline void call(EnumBase* self, const EnumBase& other) {
-                new (self->_storage) Alt {*reinterpret_cast<const Alt*>(&other._storage)};
+                new (self->_storage) Alt(*reinterpret_cast<const Alt*>(&other._storage));
             }
         };
 
@@ -425,7 +425,7 @@ namespace detail {
             using Alt = PackAt<i, A, As...>;
 
             static inline void call(EnumBase* self, EnumBase&& other) {
-                new (self->_storage) Alt {efp::move(*reinterpret_cast<Alt*>(&other._storage))};
+                new (self->_storage) Alt(efp::move(*reinterpret_cast<Alt*>(&other._storage)));
             }
         };
 
diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index ad41dd1..9db0e53 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -59,7 +59,7 @@ public:
 
     Array(const Array& other) {
         for (size_t i = 0; i < ct_size; ++i) {
-            new (_data + i) Element {other._data[i]};
+            new (_data + i) Element(other._data[i]);
         }
     }
 
@@ -67,7 +67,7 @@ public:
         if (this != &other) {
             for (size_t i = 0; i < ct_size; ++i) {
                 (_data + i)->~Element();                   // Destroy each element
-                new (_data + i) Element {other._data[i]};  // Copy-construct each element
+                new (_data + i) Element(other._data[i]);  // Copy-construct each element
             }
         }
         return *this;
@@ -75,7 +75,7 @@ public:
 
     Array(Array&& other) noexcept {
         for (size_t i = 0; i < ct_size; ++i) {
-            new (_data + i) Element {efp::move(other._data[i])};  // Move-construct each element
+            new (_data + i) Element(efp::move(other._data[i]));  // Move-construct each element
         }
     }
 
@@ -83,7 +83,7 @@ public:
         if (this != &other) {
             for (size_t i = 0; i < ct_size; ++i) {
                 (_data + i)->~Element();                              // Destroy each element
-                new (_data + i) Element {efp::move(other._data[i])};  // Move-construct each element
+                new (_data + i) Element(efp::move(other._data[i]));  // Move-construct each element
             }
         }
         return *this;
@@ -102,7 +102,7 @@ public:
 
         size_t index = 0;
         for (const auto& e : il) {
-            new (_data + index++) Element {e};
+            new (_data + index++) Element(e);
         }
     }
 
@@ -253,7 +253,7 @@ public:
 
     ArrVec(const ArrVec& other) : _size {other._size} {
         for (size_t i = 0; i < _size; ++i) {
-            new (_data + i) Element {other._data[i]};
+            new (_data + i) Element(other._data[i]);
         }
     }
 
@@ -266,7 +266,7 @@ public:
             _size = other._size;
 
             for (size_t i = 0; i < _size; ++i) {
-                new (_data + i) Element {other._data[i]};  // Copy-construct each element
+                new (_data + i) Element(other._data[i]);  // Copy-construct each element
             }
         }
         return *this;
@@ -274,7 +274,7 @@ public:
 
     ArrVec(ArrVec&& other) noexcept : _size {other._size} {
         for (size_t i = 0; i < _size; ++i) {
-            new (_data + i) Element {efp::move(other._data[i])};
+            new (_data + i) Element(efp::move(other._data[i]));
         }
 
         // Reset the source object
@@ -291,7 +291,7 @@ public:
             // Move data from the source object
             _size = other._size;
             for (size_t i = 0; i < _size; ++i) {
-                new (_data + i) Element {efp::move(other._data[i])};
+                new (_data + i) Element(efp::move(other._data[i]));
             }
 
             // Reset the source object
@@ -310,7 +310,7 @@ public:
     template<size_t ct_size_, typename = EnableIf<ct_capacity >= ct_size_, void>>
     ArrVec(const ArrVec<Element, ct_size_>& as) : _size(as.size()) {
         for (size_t i = 0; i < _size; ++i) {
-            new (_data + i) Element {as[i]};
+            new (_data + i) Element(as[i]);
         }
     }
 
@@ -323,7 +323,7 @@ public:
 
         size_t index = 0;
         for (const auto& e : il) {
-            new (_data + index++) Element {e};
+            new (_data + index++) Element(e);
         }
     }
 
@@ -384,7 +384,7 @@ public:
         if (_size >= ct_capacity) {
             throw RuntimeError("ArrVec::push_back: size must be less than or equal to ct_capacity");
         } else {
-            new (_data + _size++) Element {value};
+            new (_data + _size++) Element(value);
         }
     }
 
@@ -392,7 +392,7 @@ public:
         if (_size >= ct_capacity) {
             throw RuntimeError("ArrVec::push_back: size must be less than or equal to ct_capacity");
         } else {
-            new (_data + _size++) Element {efp::move(value)};
+            new (_data + _size++) Element(efp::move(value));
         }
     }
 
@@ -439,7 +439,7 @@ public:
         (_data + index)->~Element();
 
         for (size_t i = index; i < _size - 1; ++i) {
-            new (_data + i) Element {efp::move(_data[i + 1])};
+            new (_data + i) Element(efp::move(_data[i + 1]));
             (_data + i + 1)->~Element();
         }
         --_size;
-- 
2.43.0


From eb289bf192658929ed2c5e202e29f08f3f32ab3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:55 +0000
Subject: [PATCH 66/66] fix: appending or inserting a part of a string to
 itself reads freed storage (C04)

---
 include/efp/string.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index ef73dfe..3ca2508 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -119,13 +119,8 @@ public:
     }
 
     Vector& append(const Char* c_str) {
-        const size_t len = Traits::length(c_str);
-
-        for (size_t i = 0; i < len; ++i) {
-            Base::push_back(c_str[i]);
-        }
-
-        return *this;
+        // c_str may be a part of this string
+        return *this += Vector(c_str, Traits::length(c_str), Base::_allocator);
     }
 
     Vector& append(size_t n, Char c) {
@@ -152,6 +147,8 @@ public:
         }
 
         const size_t len = Traits::length(c_str);
+        // c_str may be a part of this string
+        const Vector text(c_str, len, Base::_allocator);
         // Always reserve one extra space for the null character
         Base::reserve(Base::_size + len + 1);
 
@@ -160,7 +157,7 @@ public:
         }
 
         for (size_t i = 0; i < len; ++i) {
-            Base::_data[pos + i] = c_str[i];
+            Base::_data[pos + i] = text[i];
         }
 
         Base::_size += len;
@@ -173,6 +170,12 @@ public:
             throw RuntimeError("Index out of range");
         }
 
+        if (n == 0) {
+            return *this;
+        }
+
+        // c_str may be a part of this string
+        const Vector text(c_str, n, Base::_allocator);
         // Always reserve one extra space for the null character
         Base::reserve(Base::_size + n + 1);
 
@@ -181,7 +184,7 @@ public:
         }
 
         for (size_t i = 0; i < n; ++i) {
-            Base::_data[pos + i] = c_str[i];
+            Base::_data[pos + i] = text[i];
         }
 
         Base::_size += n;
-- 
2.43.0

