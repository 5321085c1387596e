From d12afef37be87d396f256eaac91c70e4f61c5f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:26 +0000
Subject: [PATCH 001/185] fix: is_heap_until rejected heaps with equal parent
 and child

---
 sprout/algorithm/is_heap_until.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/is_heap_until.hpp b/sprout/algorithm/is_heap_until.hpp
index cdaaf10..af9119f 100644
--- a/sprout/algorithm/is_heap_until.hpp
+++ b/sprout/algorithm/is_heap_until.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 			)
 		{
 			return found != first ? found
-				: pivot == 0 ? (!comp(it[first], it[(first - 1) / 2]) ? first : last)
+				: pivot == 0 ? (comp(it[(first - 1) / 2], it[first]) ? first : last)
 				: sprout::detail::is_heap_until_impl(
 					it, comp, first + pivot, last,
 					((last - first) - pivot) / 2,
-- 
2.43.0


From d77a9a3a7558d3a01676a042f9569574c4daf11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:26 +0000
Subject: [PATCH 002/185] fix: one_of and one_of_equal counted two matches in
 one half as none

---
 sprout/algorithm/one_of.hpp       | 10 +++++++---
 sprout/algorithm/one_of_equal.hpp | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/sprout/algorithm/one_of.hpp b/sprout/algorithm/one_of.hpp
index f524e7f..f237104 100644
--- a/sprout/algorithm/one_of.hpp
+++ b/sprout/algorithm/one_of.hpp
@@ -51,10 +51,14 @@ namespace sprout {
 						sprout::next(first, pivot), last, pred,
 						(sprout::distance(first, last) - pivot) / 2
 						)
-					: sprout::detail::one_of_impl_ra(
-						sprout::next(first, pivot), last, pred,
-						(sprout::distance(first, last) - pivot) / 2
+					: sprout::detail::one_of_impl_ra_1(
+						first, sprout::next(first, pivot), pred,
+						pivot / 2
 						)
+						&& sprout::detail::one_of_impl_ra(
+							sprout::next(first, pivot), last, pred,
+							(sprout::distance(first, last) - pivot) / 2
+							)
 				;
 		}
 		template<typename RandomAccessIterator, typename Predicate>
diff --git a/sprout/algorithm/one_of_equal.hpp b/sprout/algorithm/one_of_equal.hpp
index 35e9e67..7e04e85 100644
--- a/sprout/algorithm/one_of_equal.hpp
+++ b/sprout/algorithm/one_of_equal.hpp
@@ -51,10 +51,14 @@ namespace sprout {
 						sprout::next(first, pivot), last, value,
 						(sprout::distance(first, last) - pivot) / 2
 						)
-					: sprout::detail::one_of_equal_impl_ra(
-						sprout::next(first, pivot), last, value,
-						(sprout::distance(first, last) - pivot) / 2
+					: sprout::detail::one_of_equal_impl_ra_1(
+						first, sprout::next(first, pivot), value,
+						pivot / 2
 						)
+						&& sprout::detail::one_of_equal_impl_ra(
+							sprout::next(first, pivot), last, value,
+							(sprout::distance(first, last) - pivot) / 2
+							)
 				;
 		}
 		template<typename RandomAccessIterator, typename T>
-- 
2.43.0


From e52d0ce8416e410fd2bb05737bbe073e946e5c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:26 +0000
Subject: [PATCH 003/185] fix: search_n with count 0 matches the empty run at
 first

---
 sprout/algorithm/search_n.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/search_n.hpp b/sprout/algorithm/search_n.hpp
index 0f931db..5edfe9a 100644
--- a/sprout/algorithm/search_n.hpp
+++ b/sprout/algorithm/search_n.hpp
@@ -129,7 +129,7 @@ namespace sprout {
 	inline SPROUT_CONSTEXPR ForwardIterator
 	search_n(ForwardIterator first, ForwardIterator last, Size count, T const& value, BinaryPredicate pred) {
 		typedef typename std::iterator_traits<ForwardIterator>::iterator_category* category;
-		return count == 0 ? last : count == 1 ? sprout::find_if(first, last, sprout::bind2nd(pred, value))
+		return count == 0 ? first : count == 1 ? sprout::find_if(first, last, sprout::bind2nd(pred, value))
 			: sprout::detail::search_n(first, last, count, value, pred, category());
 	}
 
@@ -137,7 +137,7 @@ namespace sprout {
 	inline SPROUT_CONSTEXPR ForwardIterator
 	search_n(ForwardIterator first, ForwardIterator last, Size count, T const& value) {
 		typedef typename std::iterator_traits<ForwardIterator>::iterator_category* category;
-		return count == 0 ? last : count == 1 ? sprout::find(first, last, value)
+		return count == 0 ? first : count == 1 ? sprout::find(first, last, value)
 			: sprout::detail::search_n(first, last, count, value, sprout::equal_to<>(), category());
 	}
 }	// namespace sprout
-- 
2.43.0


From 9db4a30ea51b389705bdc9ae784d9147810c8768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:23 +0000
Subject: [PATCH 004/185] fix: copy_until and copy_while returned a std::pair
 that does not convert to their result type

---
 sprout/algorithm/cxx14/copy_until.hpp | 2 +-
 sprout/algorithm/cxx14/copy_while.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/cxx14/copy_until.hpp b/sprout/algorithm/cxx14/copy_until.hpp
index ffe3dc7..2ec2ad0 100644
--- a/sprout/algorithm/cxx14/copy_until.hpp
+++ b/sprout/algorithm/cxx14/copy_until.hpp
@@ -26,7 +26,7 @@ namespace sprout {
 		for (; first != last && !pred(*first); ++first) {
 			*result++ = *first;
 		}
-		return std::make_pair(first, result);
+		return sprout::pair<InputIterator, OutputIterator>(first, result);
 	}
 }	// namespace sprout
 
diff --git a/sprout/algorithm/cxx14/copy_while.hpp b/sprout/algorithm/cxx14/copy_while.hpp
index ad59c77..05c13d8 100644
--- a/sprout/algorithm/cxx14/copy_while.hpp
+++ b/sprout/algorithm/cxx14/copy_while.hpp
@@ -26,7 +26,7 @@ namespace sprout {
 		for (; first != last && pred(*first); ++first) {
 			*result++ = *first;
 		}
-		return std::make_pair(first, result);
+		return sprout::pair<InputIterator, OutputIterator>(first, result);
 	}
 }	// namespace sprout
 
-- 
2.43.0


From b74e79db05bf1436dba3321becaa25e70a0bd2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:23 +0000
Subject: [PATCH 005/185] fix: partial_sort_copy passed its comparator type as
 the iterator type and did not compile

---
 sprout/algorithm/cxx14/partial_sort_copy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/partial_sort_copy.hpp b/sprout/algorithm/cxx14/partial_sort_copy.hpp
index c42416a..93b4a4e 100644
--- a/sprout/algorithm/cxx14/partial_sort_copy.hpp
+++ b/sprout/algorithm/cxx14/partial_sort_copy.hpp
@@ -18,7 +18,7 @@
 
 namespace sprout {
 	namespace detail {
-		template<typename InputIterator, typename RandomAccessIterator, typename Compare>
+		template<typename Compare, typename InputIterator, typename RandomAccessIterator>
 		inline SPROUT_CXX14_CONSTEXPR RandomAccessIterator
 		partial_sort_copy(InputIterator first, InputIterator last, RandomAccessIterator result_first, RandomAccessIterator result_last, Compare comp) {
 			typedef typename std::iterator_traits<RandomAccessIterator>::difference_type difference_type;
-- 
2.43.0


From c7f93b22919cfbe198dd3c15fd9f739cea562955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:23 +0000
Subject: [PATCH 006/185] fix: for_each_n never advanced its counter

---
 sprout/algorithm/cxx14/for_each_n.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/for_each_n.hpp b/sprout/algorithm/cxx14/for_each_n.hpp
index 473f30a..88946af 100644
--- a/sprout/algorithm/cxx14/for_each_n.hpp
+++ b/sprout/algorithm/cxx14/for_each_n.hpp
@@ -17,7 +17,7 @@ namespace sprout {
 	template<typename InputIterator, typename Size, typename Function>
 	inline SPROUT_CXX14_CONSTEXPR InputIterator
 	for_each_n(InputIterator first, Size n, Function f) {
-		for (Size i = 0; i < n; ++first) {
+		for (Size i = 0; i < n; ++i, ++first) {
 			f(*first);
 		}
 		return first;
-- 
2.43.0


From abeeaaa043b7dcae1c2e2f6c7b5fe3d24397c1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:23 +0000
Subject: [PATCH 007/185] fix: random_swap could choose the past-the-end
 element

---
 sprout/algorithm/cxx14/random_swap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/random_swap.hpp b/sprout/algorithm/cxx14/random_swap.hpp
index 6f3ea74..9674d32 100644
--- a/sprout/algorithm/cxx14/random_swap.hpp
+++ b/sprout/algorithm/cxx14/random_swap.hpp
@@ -25,7 +25,7 @@ namespace sprout {
 		typedef SPROUT_WORKAROUND_DETAIL_UNIFORM_INT_DISTRIBUTION<std::ptrdiff_t> distribution_type;
 		difference_type d = last - first;
 		if (d > 1) {
-			distribution_type dist(0, d);
+			distribution_type dist(0, d - 1);
 			difference_type i = dist(g);
 			difference_type j = dist(g);
 			if (i != j) {
-- 
2.43.0


From 4589003605c8d0a3cce70187c9459ca15e39d8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:23 +0000
Subject: [PATCH 008/185] fix: stable_partition ignored the satisfying prefix
 of the right half

---
 sprout/algorithm/cxx14/stable_partition.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/stable_partition.hpp b/sprout/algorithm/cxx14/stable_partition.hpp
index 624e75e..3e37e44 100644
--- a/sprout/algorithm/cxx14/stable_partition.hpp
+++ b/sprout/algorithm/cxx14/stable_partition.hpp
@@ -28,8 +28,9 @@ namespace sprout {
 			BidirectionalIterator left_split = sprout::detail::inplace_stable_partition(first, pred, len / 2);
 			Distance right_len = len - len / 2;
 			BidirectionalIterator right_split = sprout::find_if_not(middle, sprout::next(middle, right_len), pred);
+			right_len -= sprout::distance(middle, right_split);
 			if (right_len) {
-				right_split = sprout::detail::inplace_stable_partition(middle, pred, right_len);
+				right_split = sprout::detail::inplace_stable_partition(right_split, pred, right_len);
 			}
 			sprout::rotate(left_split, middle, right_split);
 			sprout::advance(left_split, sprout::distance(middle, right_split));
-- 
2.43.0


From 25e78d7bdcf2ca65c0932f840751d5c6137aeb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:28 +0000
Subject: [PATCH 009/185] fix: move_backward walked backwards from first
 instead of last

---
 sprout/algorithm/cxx14/move_backward.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/algorithm/cxx14/move_backward.hpp b/sprout/algorithm/cxx14/move_backward.hpp
index 608adc4..86788b7 100644
--- a/sprout/algorithm/cxx14/move_backward.hpp
+++ b/sprout/algorithm/cxx14/move_backward.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 	inline SPROUT_CXX14_CONSTEXPR BidirectionalIterator2
 	move_backward(BidirectionalIterator1 first, BidirectionalIterator1 last, BidirectionalIterator2 result) {
 		while (first != last) {
-			*--result = sprout::move(*--first);
+			*--result = sprout::move(*--last);
 		}
 		return result;
 	}
-- 
2.43.0


From f1349b3270124bb5cda6f4335b195b1888fc3a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:28 +0000
Subject: [PATCH 010/185] fix: stable_sort was ambiguous once sort was included

---
 sprout/algorithm/cxx14/detail/insertion_sort.hpp | 2 +-
 sprout/algorithm/cxx14/stable_sort.hpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/cxx14/detail/insertion_sort.hpp b/sprout/algorithm/cxx14/detail/insertion_sort.hpp
index f23484d..ae595a6 100644
--- a/sprout/algorithm/cxx14/detail/insertion_sort.hpp
+++ b/sprout/algorithm/cxx14/detail/insertion_sort.hpp
@@ -32,7 +32,7 @@ namespace sprout {
 
 		template<typename RandomAccessIterator, typename Compare>
 		inline SPROUT_CXX14_CONSTEXPR void
-		insertion_sort(RandomAccessIterator first, RandomAccessIterator last, Compare comp) {
+		inplace_insertion_sort(RandomAccessIterator first, RandomAccessIterator last, Compare comp) {
 			typedef typename std::iterator_traits<RandomAccessIterator>::value_type value_type;
 			if (first == last) {
 				return;
diff --git a/sprout/algorithm/cxx14/stable_sort.hpp b/sprout/algorithm/cxx14/stable_sort.hpp
index 293564a..a330e02 100644
--- a/sprout/algorithm/cxx14/stable_sort.hpp
+++ b/sprout/algorithm/cxx14/stable_sort.hpp
@@ -19,7 +19,7 @@ namespace sprout {
 		inline SPROUT_CXX14_CONSTEXPR void
 		inplace_stable_sort(RandomAccessIterator first, RandomAccessIterator last, Compare comp) {
 			if (last - first < 15) {
-				sprout::detail::insertion_sort(first, last, comp);
+				sprout::detail::inplace_insertion_sort(first, last, comp);
 				return;
 			}
 			RandomAccessIterator middle = first + (last - first) / 2;
-- 
2.43.0


From 3fb8ff8c1572402849b74b18c22a48be02969b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:25 +0000
Subject: [PATCH 011/185] fix: make_heap sifted up with a length one too small

---
 sprout/algorithm/cxx14/make_heap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/cxx14/make_heap.hpp b/sprout/algorithm/cxx14/make_heap.hpp
index 497bdbd..a81325a 100644
--- a/sprout/algorithm/cxx14/make_heap.hpp
+++ b/sprout/algorithm/cxx14/make_heap.hpp
@@ -24,8 +24,8 @@ namespace sprout {
 			if (len > 1) {
 				last = first;
 				++last;
-				for (difference_type i = 1; i < len; ++i) {
-					sprout::detail::push_heap_back<Compare>(first, ++last, comp, i);
+				for (difference_type i = 1; i < len;) {
+					sprout::detail::push_heap_back<Compare>(first, ++last, comp, ++i);
 				}
 			}
 		}
-- 
2.43.0


From b6d201f6d1cfd8d456264a5a20d38e1f2a42ba57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:44 +0000
Subject: [PATCH 012/185] fix: string find_*_of overloads for string iterators
 did not compile or searched from the wrong end

---
 sprout/string/string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index f9f42f2..b4bff5f 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -1016,7 +1016,7 @@ namespace sprout {
 			is_string_iterator<StringConstIterator>::value,
 			size_type
 		>::type
-		find_last_of(StringConstIterator s, size_type pos = 0) const {
+		find_last_of(StringConstIterator s, size_type pos = npos) const {
 			return find_last_of(s, pos, traits_type::length(s));
 		}
 		template<typename StringConstIterator>
@@ -1033,7 +1033,7 @@ namespace sprout {
 			size_type
 		>::type
 		find_first_not_of(StringConstIterator s, size_type pos = 0) const {
-			return sprout::string_detail::find_first_not_of_impl<basic_string>(s, pos, traits_type::length(s));
+			return find_first_not_of(s, pos, traits_type::length(s));
 		}
 		template<typename StringConstIterator>
 		SPROUT_CONSTEXPR typename std::enable_if<
@@ -1049,7 +1049,7 @@ namespace sprout {
 			size_type
 		>::type
 		find_last_not_of(StringConstIterator s, size_type pos = npos) const {
-			return sprout::string_detail::find_last_not_of_impl<basic_string>(s, pos, traits_type::length(s));
+			return find_last_not_of(s, pos, traits_type::length(s));
 		}
 		template<typename StringConstIterator>
 		SPROUT_CONSTEXPR typename std::enable_if<
-- 
2.43.0


From bf52935836e0bf3c4d6792f848debbcf9516c1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:44 +0000
Subject: [PATCH 013/185] fix: assigning from an empty string, or from position
 size(), threw out_of_range

---
 sprout/string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index b4bff5f..06d17e7 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -891,7 +891,7 @@ namespace sprout {
 		}
 
 		SPROUT_CXX14_CONSTEXPR void rangecheck(size_type i) const {
-			return i >= size() ? throw std::out_of_range("basic_string<>: index out of range")
+			return i > size() ? throw std::out_of_range("basic_string<>: index out of range")
 				: (void)0
 				;
 		}
-- 
2.43.0


From 532ce246f79bf9acf6a2fb6324dc32c428217037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:44 +0000
Subject: [PATCH 014/185] fix: rbegin and rend of a mutable string did not
 compile

---
 sprout/string/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index 06d17e7..bddd982 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -486,7 +486,7 @@ namespace sprout {
 #endif
 		SPROUT_CXX14_CONSTEXPR reverse_iterator
 		rbegin() SPROUT_NOEXCEPT {
-			return const_reverse_iterator(end());
+			return reverse_iterator(end());
 		}
 		SPROUT_CONSTEXPR const_reverse_iterator
 		rbegin() const SPROUT_NOEXCEPT {
@@ -494,7 +494,7 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR reverse_iterator
 		rend() SPROUT_NOEXCEPT {
-			return const_reverse_iterator(begin());
+			return reverse_iterator(begin());
 		}
 		SPROUT_CONSTEXPR const_reverse_iterator
 		rend() const SPROUT_NOEXCEPT {
-- 
2.43.0


From 79982a4546825f4b1646455be960a29ad0e325f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:44 +0000
Subject: [PATCH 015/185] fix: assigning or appending a single-pass range
 overran the string by one character

---
 sprout/string/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index bddd982..50503c5 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -306,7 +306,7 @@ namespace sprout {
 		assign(InputIterator first, InputIterator last, std::input_iterator_tag*) {
 			iterator it = begin();
 			for (; first != last; ++first, ++it) {
-				if (sprout::distance(begin(), it) > max_size()) {
+				if (sprout::distance(begin(), it) >= max_size()) {
 					throw std::length_error("basic_string<>: length exceeded");
 				}
 				traits_type::assign(*it, *first);
@@ -330,7 +330,7 @@ namespace sprout {
 		append(InputIterator first, InputIterator last, std::input_iterator_tag*) {
 			iterator it = end();
 			for (; first != last; ++first, ++it) {
-				if (sprout::distance(begin(), it) > max_size()) {
+				if (sprout::distance(begin(), it) >= max_size()) {
 					throw std::length_error("basic_string<>: length exceeded");
 				}
 				traits_type::assign(*it, *first);
-- 
2.43.0


From e282652c283043585bf86b3fd2bf6e71312ab7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:44 +0000
Subject: [PATCH 016/185] fix: string nth and index_of were broken without
 index iterators

---
 sprout/string/string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index 50503c5..73e4dd5 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -1112,13 +1112,13 @@ namespace sprout {
 				;
 		}
 		SPROUT_CONSTEXPR const_iterator
-		th(size_type i) const {
+		nth(size_type i) const {
 			return i < size()
 				? data() + i
 				: (throw std::out_of_range("basic_string<>: index out of range"), const_iterator())
 				;
-		}SPROUT_CXX14_CONSTEXPR
-		SPROUT_CONSTEXPR size_type
+		}
+		SPROUT_CXX14_CONSTEXPR size_type
 		index_of(iterator p) SPROUT_NOEXCEPT {
 			return sprout::distance(begin(), p);
 		}
-- 
2.43.0


From 90ac4c4d57f239a0507a3b7504debfb5765c8b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:44 +0000
Subject: [PATCH 017/185] fix: extracting a longer string from a stream zeroed
 it

---
 sprout/string/io.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sprout/string/io.hpp b/sprout/string/io.hpp
index aceddb9..8db67e9 100644
--- a/sprout/string/io.hpp
+++ b/sprout/string/io.hpp
@@ -30,7 +30,7 @@ namespace sprout {
 		typedef typename string_type::size_type size_type;
 		std::ios_base::iostate state = std::ios_base::goodbit;
 		bool changed = false;
-		size_type current = 0;
+		rhs.clear();
 		if (typename istream_type::sentry(lhs)) {
 			ctype_type const& ctype_fac = std::use_facet<ctype_type>(lhs.getloc());
 			try {
@@ -46,9 +46,8 @@ namespace sprout {
 					} else if (ctype_fac.is(ctype_type::space, traits_type::to_char_type(meta))) {
 						break;
 					} else {
-						rhs[current] = traits_type::to_char_type(meta);
+						rhs.push_back(traits_type::to_char_type(meta));
 						changed = true;
-						++current;
 					}
 			} catch (...) {
 				state |= std::ios_base::badbit;
@@ -59,7 +58,6 @@ namespace sprout {
 			state |= std::ios_base::failbit;
 		}
 		lhs.setstate(state);
-		rhs.resize(current);
 		return lhs;
 	}
 	template<typename T, std::size_t N, typename Traits, typename StreamTraits>
-- 
2.43.0


From 499a9f118fc396a94a77b45637e85681fbca753d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:20 +0000
Subject: [PATCH 018/185] fix: char_traits::move corrupted a range moved
 towards its own front

---
 sprout/string/char_traits.hpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/sprout/string/char_traits.hpp b/sprout/string/char_traits.hpp
index 96bff81..72eb798 100644
--- a/sprout/string/char_traits.hpp
+++ b/sprout/string/char_traits.hpp
@@ -52,6 +52,17 @@ namespace sprout {
 				return traits_type::lt(c1, c2);
 			}
 		};
+		// whether s1 is within [s2, s2 + n)
+		template<typename Iterator1, typename Iterator2>
+		inline SPROUT_CXX14_CONSTEXPR bool
+		char_traits_is_overlapped(Iterator1 s1, Iterator2 s2, std::size_t n) {
+			for (; n != 0; --n, ++s2) {
+				if (&*s1 == &*s2) {
+					return true;
+				}
+			}
+			return false;
+		}
 	}	// namespace detail
 
 	//
@@ -114,7 +125,11 @@ namespace sprout {
 				);
 		}
 		static SPROUT_CXX14_CONSTEXPR char_type* move(char_type* s1, char_type const* s2, std::size_t n) {
-			sprout::copy_backward(s2, s2 + n, sprout::next(s1, n));
+			if (sprout::detail::char_traits_is_overlapped(s1, s2, n)) {
+				sprout::copy_backward(s2, s2 + n, s1 + n);
+			} else {
+				sprout::copy(s2, s2 + n, s1);
+			}
 			return s1;
 		}
 		static SPROUT_CXX14_CONSTEXPR char_type* copy(char_type* s1, char_type const* s2, std::size_t n) {
@@ -200,7 +215,11 @@ namespace sprout {
 		}
 		template<typename BidirectionalIterator1, typename BidirectionalIterator2>
 		static SPROUT_CXX14_CONSTEXPR BidirectionalIterator1 move(BidirectionalIterator1 s1, BidirectionalIterator2 s2, std::size_t n) {
-			sprout::copy_backward(s2, sprout::next(s2, n), sprout::next(s1, n));
+			if (sprout::detail::char_traits_is_overlapped(s1, s2, n)) {
+				sprout::copy_backward(s2, sprout::next(s2, n), sprout::next(s1, n));
+			} else {
+				sprout::copy(s2, sprout::next(s2, n), s1);
+			}
 			return s1;
 		}
 		template<typename OutputIterator, typename BidirectionalIterator>
-- 
2.43.0


From f7e7fff678dc316bf19c3b3d6b3dca0cbc973870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:37 +0000
Subject: [PATCH 019/185] fix: a failed assign or append of a single-pass range
 left the string unterminated

---
 sprout/string/string.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index 73e4dd5..c1d19df 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -307,6 +307,7 @@ namespace sprout {
 			iterator it = begin();
 			for (; first != last; ++first, ++it) {
 				if (sprout::distance(begin(), it) >= max_size()) {
+					put_terminator(max_size());
 					throw std::length_error("basic_string<>: length exceeded");
 				}
 				traits_type::assign(*it, *first);
@@ -331,6 +332,7 @@ namespace sprout {
 			iterator it = end();
 			for (; first != last; ++first, ++it) {
 				if (sprout::distance(begin(), it) >= max_size()) {
+					traits_type::assign(end(), max_size() - size(), value_type());
 					throw std::length_error("basic_string<>: length exceeded");
 				}
 				traits_type::assign(*it, *first);
-- 
2.43.0


From eb1c1e3a8fb31c73ae4d7ac60b2beba711b02bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:37 +0000
Subject: [PATCH 020/185] fix: memmove wrote the bytes before its destination

---
 sprout/cstring/memmove.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sprout/cstring/memmove.hpp b/sprout/cstring/memmove.hpp
index 30839a6..9d86d6b 100644
--- a/sprout/cstring/memmove.hpp
+++ b/sprout/cstring/memmove.hpp
@@ -12,6 +12,7 @@
 #include <sprout/config.hpp>
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
+#include <sprout/algorithm/cxx14/copy.hpp>
 #include <sprout/algorithm/cxx14/copy_backward.hpp>
 
 namespace sprout {
@@ -19,7 +20,13 @@ namespace sprout {
 		template<typename PtrIterator, typename ConstPtrIterator>
 		inline SPROUT_CXX14_CONSTEXPR PtrIterator
 		memmove(PtrIterator s1, ConstPtrIterator s2, std::size_t n) {
-			sprout::copy_backward(s2, s2 + n, s1);
+			for (std::size_t i = 0; i != n; ++i) {
+				if (s2 + i == s1) {
+					sprout::copy_backward(s2, s2 + n, s1 + n);
+					return s1;
+				}
+			}
+			sprout::copy(s2, s2 + n, s1);
 			return s1;
 		}
 	}	// namespace detail
-- 
2.43.0


From 4c04924c56338d6bd6762f65b43d72c7393a5ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:53 +0000
Subject: [PATCH 021/185] fix: strncat of a string shorter than n wrote past
 its own terminator

---
 sprout/cstring/strncat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/cstring/strncat.hpp b/sprout/cstring/strncat.hpp
index 8b8167c..4bdf336 100644
--- a/sprout/cstring/strncat.hpp
+++ b/sprout/cstring/strncat.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 			while (n) {
 				--n;
 				if (!(*s1++ = *s2++)) {
-					break;
+					return result;
 				}
 			}
 			*s1 = value_type();
-- 
2.43.0


From b0c31e3f29377151a3b41531a673e76cbdcd7ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:40 +0000
Subject: [PATCH 022/185] fix: strstr of an empty pattern in an empty string
 returned null

---
 sprout/cstring/strstr.hpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/sprout/cstring/strstr.hpp b/sprout/cstring/strstr.hpp
index e860257..857dff4 100644
--- a/sprout/cstring/strstr.hpp
+++ b/sprout/cstring/strstr.hpp
@@ -135,15 +135,19 @@ namespace sprout {
 	//
 	inline SPROUT_CONSTEXPR char const*
 	strstr(char const* s1, char const* s2) {
-		return sprout::detail::str_find_check(
-			sprout::detail::strstr(s1, s2)
-			);
+		return !*s2 ? s1
+			: sprout::detail::str_find_check(
+				sprout::detail::strstr(s1, s2)
+				)
+			;
 	}
 	inline SPROUT_CONSTEXPR char*
 	strstr(char* s1, char const* s2) {
-		return sprout::detail::str_find_check(
-			sprout::detail::strstr(s1, s2)
-			);
+		return !*s2 ? s1
+			: sprout::detail::str_find_check(
+				sprout::detail::strstr(s1, s2)
+				)
+			;
 	}
 
 	template<typename Elem>
@@ -152,9 +156,11 @@ namespace sprout {
 		Elem*
 	>::type
 	strstr(Elem* s1, typename std::remove_const<Elem>::type const* s2) {
-		return sprout::detail::str_find_check(
-			sprout::detail::strstr(s1, s2)
-			);
+		return !*s2 ? s1
+			: sprout::detail::str_find_check(
+				sprout::detail::strstr(s1, s2)
+				)
+			;
 	}
 }	// namespace sprout
 
-- 
2.43.0


From c00f121c78b088b3305fba27f4818d597e5b9f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:40 +0000
Subject: [PATCH 023/185] fix: strcat appended after the terminator

---
 sprout/cstring/strcat.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sprout/cstring/strcat.hpp b/sprout/cstring/strcat.hpp
index 8fb224a..6145231 100644
--- a/sprout/cstring/strcat.hpp
+++ b/sprout/cstring/strcat.hpp
@@ -16,8 +16,9 @@ namespace sprout {
 		inline SPROUT_CXX14_CONSTEXPR OutputNullTerminatedIterator
 		strcat(OutputNullTerminatedIterator s1, NullTerminatedIterator s2) {
 			OutputNullTerminatedIterator result = s1;
-			while (*s1++)
-				;
+			while (*s1) {
+				++s1;
+			}
 			while ((*s1++ = *s2++))
 				;
 			return result;
-- 
2.43.0


From 69895a6f0b9dac496a5bff2b624c57b43401ff8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:32 +0000
Subject: [PATCH 024/185] fix: strcmp and strncmp compared char values as
 signed

---
 sprout/cstring/strcmp.hpp  |  5 +++--
 sprout/cstring/strncmp.hpp |  7 +++++--
 sprout/detail/str.hpp      | 10 ++++++++++
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/sprout/cstring/strcmp.hpp b/sprout/cstring/strcmp.hpp
index 944c9d5..b1bc507 100644
--- a/sprout/cstring/strcmp.hpp
+++ b/sprout/cstring/strcmp.hpp
@@ -16,6 +16,7 @@
 #include <sprout/tuple/tuple/tuple.hpp>
 #include <sprout/tuple/tuple/get.hpp>
 #include <sprout/type_traits/is_char_type.hpp>
+#include <sprout/detail/str.hpp>
 
 namespace sprout {
 	namespace detail {
@@ -36,8 +37,8 @@ namespace sprout {
 		{
 			typedef sprout::tuples::tuple<InputIterator1, InputIterator2, int> type;
 			return sprout::tuples::get<2>(current) || !*sprout::tuples::get<1>(current) || !*sprout::tuples::get<0>(current) ? current
-				: n == 1 ? (*sprout::tuples::get<0>(current)) < (*sprout::tuples::get<1>(current)) ? type(sprout::tuples::get<0>(current), sprout::tuples::get<1>(current), -1)
-					: (*sprout::tuples::get<1>(current)) < (*sprout::tuples::get<0>(current)) ? type(sprout::tuples::get<0>(current), sprout::tuples::get<1>(current), 1)
+				: n == 1 ? sprout::detail::str_less()(*sprout::tuples::get<0>(current), *sprout::tuples::get<1>(current)) ? type(sprout::tuples::get<0>(current), sprout::tuples::get<1>(current), -1)
+					: sprout::detail::str_less()(*sprout::tuples::get<1>(current), *sprout::tuples::get<0>(current)) ? type(sprout::tuples::get<0>(current), sprout::tuples::get<1>(current), 1)
 					: type(sprout::next(sprout::tuples::get<0>(current)), sprout::next(sprout::tuples::get<1>(current)), 0)
 				: sprout::detail::strcmp_impl_1(
 					sprout::detail::strcmp_impl_1(
diff --git a/sprout/cstring/strncmp.hpp b/sprout/cstring/strncmp.hpp
index eaa463f..6383501 100644
--- a/sprout/cstring/strncmp.hpp
+++ b/sprout/cstring/strncmp.hpp
@@ -13,6 +13,7 @@
 #include <sprout/workaround/std/cstddef.hpp>
 #include <sprout/iterator/ptr_index_iterator.hpp>
 #include <sprout/type_traits/is_char_type.hpp>
+#include <sprout/detail/str.hpp>
 #include <sprout/algorithm/tristate_lexicographical_compare.hpp>
 
 namespace sprout {
@@ -26,7 +27,8 @@ namespace sprout {
 	strncmp(char const* s1, char const* s2, std::size_t n) {
 		return sprout::tristate_lexicographical_compare(
 			sprout::ptr_index(s1), sprout::ptr_index(s1, n), '\0',
-			sprout::ptr_index(s2), sprout::ptr_index(s2, n), '\0'
+			sprout::ptr_index(s2), sprout::ptr_index(s2, n), '\0',
+			sprout::detail::str_less()
 			);
 	}
 
@@ -39,7 +41,8 @@ namespace sprout {
 		typedef typename std::decay<Elem>::type type;
 		return sprout::tristate_lexicographical_compare(
 			sprout::ptr_index(s1), sprout::ptr_index(s1, n), type(),
-			sprout::ptr_index(s2), sprout::ptr_index(s2, n), type()
+			sprout::ptr_index(s2), sprout::ptr_index(s2, n), type(),
+			sprout::detail::str_less()
 			);
 	}
 }	// namespace sprout
diff --git a/sprout/detail/str.hpp b/sprout/detail/str.hpp
index 351477c..152aa08 100644
--- a/sprout/detail/str.hpp
+++ b/sprout/detail/str.hpp
@@ -8,10 +8,20 @@
 #ifndef SPROUT_DETAIL_STR_HPP
 #define SPROUT_DETAIL_STR_HPP
 
+#include <string>
 #include <sprout/config.hpp>
 
 namespace sprout {
 	namespace detail {
+		// the order of strcmp: char compares as unsigned char
+		struct str_less {
+		public:
+			template<typename Elem>
+			SPROUT_CONSTEXPR bool operator()(Elem const& lhs, Elem const& rhs) const {
+				return std::char_traits<Elem>::lt(lhs, rhs);
+			}
+		};
+
 		template<typename InputIterator>
 		inline SPROUT_CONSTEXPR InputIterator
 		str_find_check(InputIterator const& found) {
-- 
2.43.0


From 5eb066fccf633ec6ca0d1ee00422cb208f3464a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:48 +0000
Subject: [PATCH 025/185] fix: constructing a string from (pointer, count) read
 beyond count characters

---
 sprout/string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/string/string.hpp b/sprout/string/string.hpp
index c1d19df..4e9c930 100644
--- a/sprout/string/string.hpp
+++ b/sprout/string/string.hpp
@@ -398,7 +398,7 @@ namespace sprout {
 		SPROUT_CONSTEXPR basic_string(value_type const* s, size_type n)
 			: impl_(
 				sprout::make_index_tuple<N>::make(),
-				sprout::detail::string_checked_construct_t(), s, 0, NS_SSCRISK_CEL_OR_SPROUT::min(n, traits_type::length(s))
+				sprout::detail::string_checked_construct_t(), s, 0, sprout::char_traits_helper<traits_type>::length(s, n)
 				)
 		{}
 		SPROUT_CONSTEXPR basic_string(size_type n, value_type c)
-- 
2.43.0


From d26b61d7b23523b9dd698b864ca0390fab1c0132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:48 +0000
Subject: [PATCH 026/185] fix: string_view::substr could return a view past the
 end

---
 sprout/utility/string_view/string_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/utility/string_view/string_view.hpp b/sprout/utility/string_view/string_view.hpp
index 0618b92..a9a619c 100644
--- a/sprout/utility/string_view/string_view.hpp
+++ b/sprout/utility/string_view/string_view.hpp
@@ -367,7 +367,7 @@ namespace sprout {
 		substr(size_type pos = 0, size_type n = npos) const {
 			return !(size() < pos) ? n == npos
 					? substr(pos, size() - pos)
-					: basic_string_view(c_str() + pos, n)
+					: basic_string_view(c_str() + pos, NS_SSCRISK_CEL_OR_SPROUT::min(n, size() - pos))
 				: throw std::out_of_range("basic_string_view<>: index out of range")
 				;
 		}
-- 
2.43.0


From 5b7c00609e458d89c2ff12349399f944e9a74f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:48 +0000
Subject: [PATCH 027/185] fix: string_view::copy from position size() threw
 out_of_range

---
 sprout/utility/string_view/string_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/utility/string_view/string_view.hpp b/sprout/utility/string_view/string_view.hpp
index a9a619c..3165985 100644
--- a/sprout/utility/string_view/string_view.hpp
+++ b/sprout/utility/string_view/string_view.hpp
@@ -438,7 +438,7 @@ namespace sprout {
 		// others:
 		SPROUT_CXX14_CONSTEXPR void
 		rangecheck(size_type i) const {
-			return i >= size() ? throw std::out_of_range("basic_string_view<>: index out of range")
+			return i > size() ? throw std::out_of_range("basic_string_view<>: index out of range")
 				: (void)0
 				;
 		}
-- 
2.43.0


From 0a0747fe201804cc4362ba28fd30b7fd2b653d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:23 +0000
Subject: [PATCH 028/185] fix: parsing minimum + 1 of a signed type returned
 the minimum

---
 sprout/cstdlib/ascii_to_int.hpp | 2 +-
 sprout/cstdlib/str_to_int.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/cstdlib/ascii_to_int.hpp b/sprout/cstdlib/ascii_to_int.hpp
index 276ff83..6b125d4 100644
--- a/sprout/cstdlib/ascii_to_int.hpp
+++ b/sprout/cstdlib/ascii_to_int.hpp
@@ -31,7 +31,7 @@ namespace sprout {
 			SPROUT_STATIC_ASSERT(sprout::detail::is_char_type_of_consecutive_digits<value_type>::value);
 			return !sprout::ascii::isdigit(*str)
 				? negative ? -val : val
-				: val > (sprout::numeric_limits<IntType>::max() - (*str - SPROUT_CHAR_LITERAL('0', value_type)) - (negative ? 1 : 0)) / 10
+				: val > (sprout::numeric_limits<IntType>::max() - (*str - SPROUT_CHAR_LITERAL('0', value_type))) / 10
 				? (negative ? sprout::numeric_limits<IntType>::min() : sprout::numeric_limits<IntType>::max())
 				: sprout::detail::ascii_to_int_impl<IntType>(
 					sprout::next(str),
diff --git a/sprout/cstdlib/str_to_int.hpp b/sprout/cstdlib/str_to_int.hpp
index af50e37..859edf4 100644
--- a/sprout/cstdlib/str_to_int.hpp
+++ b/sprout/cstdlib/str_to_int.hpp
@@ -31,7 +31,7 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR IntType
 		str_to_int_impl_1(NullTerminatedIterator const& str, int base, IntType val, IntType x, bool negative) {
 			return x == static_cast<IntType>(-1) ? (negative ? -1 * val : val)
-				: val > (sprout::numeric_limits<IntType>::max() - x - (negative ? 1 : 0)) / base
+				: val > (sprout::numeric_limits<IntType>::max() - x) / base
 					? (negative ? sprout::numeric_limits<IntType>::min() : sprout::numeric_limits<IntType>::max())
 				: sprout::detail::str_to_int_impl_1<IntType>(
 					sprout::next(str),
-- 
2.43.0


From 3fac650e0866c831266d449cccc5e5378dc387b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:23 +0000
Subject: [PATCH 029/185] fix: str_to_int accepted a 0x prefix for bases other
 than 0 and 16

---
 sprout/cstdlib/str_to_int.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sprout/cstdlib/str_to_int.hpp b/sprout/cstdlib/str_to_int.hpp
index 859edf4..306ca9d 100644
--- a/sprout/cstdlib/str_to_int.hpp
+++ b/sprout/cstdlib/str_to_int.hpp
@@ -47,8 +47,10 @@ namespace sprout {
 		str_to_int_impl(NullTerminatedIterator const& str, int base, bool negative) {
 			typedef typename std::iterator_traits<NullTerminatedIterator>::value_type char_type;
 			return *str == SPROUT_CHAR_LITERAL('0', char_type)
-				? *sprout::next(str) == SPROUT_CHAR_LITERAL('x', char_type)
-					|| *sprout::next(str) == SPROUT_CHAR_LITERAL('X', char_type)
+				? (base == 0 || base == 16)
+					&& (*sprout::next(str) == SPROUT_CHAR_LITERAL('x', char_type)
+						|| *sprout::next(str) == SPROUT_CHAR_LITERAL('X', char_type)
+						)
 					? sprout::detail::str_to_int_impl_1<IntType>(
 						sprout::next(str, 2),
 						base ? base : 16,
-- 
2.43.0


From da3f31a83c3b33b79be36a94819a3e467b8e3978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:23 +0000
Subject: [PATCH 030/185] fix: parsing a negated unsigned number ignored the
 digits

---
 sprout/cstdlib/str_to_int.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sprout/cstdlib/str_to_int.hpp b/sprout/cstdlib/str_to_int.hpp
index 306ca9d..0518f72 100644
--- a/sprout/cstdlib/str_to_int.hpp
+++ b/sprout/cstdlib/str_to_int.hpp
@@ -32,7 +32,7 @@ namespace sprout {
 		str_to_int_impl_1(NullTerminatedIterator const& str, int base, IntType val, IntType x, bool negative) {
 			return x == static_cast<IntType>(-1) ? (negative ? -1 * val : val)
 				: val > (sprout::numeric_limits<IntType>::max() - x) / base
-					? (negative ? sprout::numeric_limits<IntType>::min() : sprout::numeric_limits<IntType>::max())
+					? (negative && sprout::is_signed<IntType>::value ? sprout::numeric_limits<IntType>::min() : sprout::numeric_limits<IntType>::max())
 				: sprout::detail::str_to_int_impl_1<IntType>(
 					sprout::next(str),
 					base,
@@ -83,6 +83,8 @@ namespace sprout {
 			typedef typename std::iterator_traits<NullTerminatedIterator>::value_type char_type;
 			return sprout::ascii::isspace(*str)
 					? sprout::detail::str_to_int<IntType>(sprout::next(str), base)
+				: *str == SPROUT_CHAR_LITERAL('-', char_type)
+					? sprout::detail::str_to_int_impl<IntType>(sprout::next(str), base, true)
 				: *str == SPROUT_CHAR_LITERAL('+', char_type)
 					? sprout::detail::str_to_int_impl<IntType>(sprout::next(str), base, false)
 				: sprout::detail::str_to_int_impl<IntType>(str, base, false)
-- 
2.43.0


From 19842f43d3adf7e8c5561071ed58b24b7ad0262e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:23 +0000
Subject: [PATCH 031/185] fix: str_to_float inverted the exponent and skipped
 its first digit

---
 sprout/cstdlib/str_to_float.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/sprout/cstdlib/str_to_float.hpp b/sprout/cstdlib/str_to_float.hpp
index cf74032..9c1bbb2 100644
--- a/sprout/cstdlib/str_to_float.hpp
+++ b/sprout/cstdlib/str_to_float.hpp
@@ -58,8 +58,9 @@ namespace sprout {
 			long exponent = 0
 			)
 		{
-			return exponent >= sprout::numeric_limits<FloatType>::min_exponent
-				&& exponent <= sprout::numeric_limits<FloatType>::max_exponent
+			return exponent < sprout::numeric_limits<FloatType>::min_exponent || number == 0
+				? number * 0
+				: exponent <= sprout::numeric_limits<FloatType>::max_exponent
 				? sprout::detail::str_to_float_impl_scale<FloatType>(
 					str,
 					negative,
@@ -69,7 +70,7 @@ namespace sprout {
 					exponent,
 					exponent < 0 ? -exponent : exponent
 					)
-				: HUGE_VAL
+				: number < 0 ? -HUGE_VAL : HUGE_VAL
 				;
 		}
 		template<typename FloatType, typename NullTerminatedIterator>
@@ -93,7 +94,7 @@ namespace sprout {
 					num_digits,
 					num_decimals,
 					exponent,
-					n * 10 + (*str - SPROUT_CHAR_LITERAL('0', char_type))
+					n < 100000 ? n * 10 + (*str - SPROUT_CHAR_LITERAL('0', char_type)) : n
 					)
 				: sprout::detail::str_to_float_impl_exponent_2<FloatType>(
 					str,
@@ -101,7 +102,7 @@ namespace sprout {
 					number,
 					num_digits,
 					num_decimals,
-					negative ? exponent + n : exponent - n
+					negative ? exponent - n : exponent + n
 					)
 				;
 		}
@@ -127,7 +128,8 @@ namespace sprout {
 						num_decimals,
 						exponent
 						)
-					: sprout::detail::str_to_float_impl_exponent_1<FloatType>(
+					: *sprout::next(str) == SPROUT_CHAR_LITERAL('+', char_type)
+					? sprout::detail::str_to_float_impl_exponent_1<FloatType>(
 						sprout::next(str, 2),
 						false,
 						number,
@@ -135,6 +137,14 @@ namespace sprout {
 						num_decimals,
 						exponent
 						)
+					: sprout::detail::str_to_float_impl_exponent_1<FloatType>(
+						sprout::next(str),
+						false,
+						number,
+						num_digits,
+						num_decimals,
+						exponent
+						)
 				: sprout::detail::str_to_float_impl_exponent_2<FloatType>(
 					str,
 					negative,
-- 
2.43.0


From 3e19bfb57c2044912c8c695d8422c5c6d6c5b502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:51 +0000
Subject: [PATCH 032/185] fix: to_string of a floating point number printed
 wrong digits

---
 sprout/detail/math/float.hpp      | 28 ++++++++++-----
 sprout/string/float_to_string.hpp | 59 +++++++++++++++++++++++--------
 2 files changed, 63 insertions(+), 24 deletions(-)

diff --git a/sprout/detail/math/float.hpp b/sprout/detail/math/float.hpp
index 897ccfa..94b5067 100644
--- a/sprout/detail/math/float.hpp
+++ b/sprout/detail/math/float.hpp
@@ -10,6 +10,7 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/limits.hpp>
 #include <sprout/math/abs.hpp>
 #include <sprout/math/floor.hpp>
 #include <sprout/math/round.hpp>
@@ -66,14 +67,14 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR int
 		float_exponent10_positive(FloatType val) {
 			typedef sprout::pair<int, FloatType> type;
-			return float_exponent10_positive_0(type(val, 0), 1).first;
+			return sprout::detail::float_exponent10_positive_0(type(0, val), 1).first;
 		}
 		template<typename FloatType>
 		inline SPROUT_CONSTEXPR sprout::pair<int, FloatType>
 		float_exponent10_negative_1(sprout::pair<int, FloatType> const& current, int n) {
 			typedef sprout::pair<int, FloatType> type;
 			return !((current.second) < 1) ? current
-				: n == 1 ? type(current.first + 1, current.second * 10)
+				: n == 1 ? type(current.first - 1, current.second * 10)
 				: sprout::detail::float_exponent10_negative_1(
 					sprout::detail::float_exponent10_negative_1(
 						current,
@@ -100,7 +101,7 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR int
 		float_exponent10_negative(FloatType val) {
 			typedef sprout::pair<int, FloatType> type;
-			return float_exponent10_negative_0(type(val, 0), 1).first;
+			return sprout::detail::float_exponent10_negative_0(type(0, val), 1).first;
 		}
 		// !!! OLD:
 //		template<typename FloatType>
@@ -123,7 +124,8 @@ namespace sprout {
 		>
 		inline SPROUT_CONSTEXPR int
 		float_exponent10(FloatType val) {
-			return val < 0
+			return val == 0 ? 0
+				: val < 0
 				? val > -1
 					? sprout::detail::float_exponent10_negative(-val)
 					: sprout::detail::float_exponent10_positive(-val)
@@ -138,8 +140,11 @@ namespace sprout {
 		//
 		template<typename FloatType>
 		inline SPROUT_CONSTEXPR int
-		float_digit_of_impl(FloatType val) {
-			return static_cast<int>((val - sprout::math::floor(val)) * 10);
+		float_digit_of_impl(FloatType digit) {
+			return digit < 0 ? 0
+				: digit > 9 ? 9
+				: static_cast<int>(digit)
+				;
 		}
 		template<
 			typename FloatType,
@@ -147,7 +152,10 @@ namespace sprout {
 		>
 		inline SPROUT_CONSTEXPR int
 		float_digit_at(FloatType val, int digits) {
-			return sprout::detail::float_digit_of_impl(val / sprout::detail::float_pow10<FloatType>(digits + 1));
+			return sprout::detail::float_digit_of_impl(
+				sprout::math::floor(val / sprout::detail::float_pow10<FloatType>(digits))
+					- sprout::math::floor(val / sprout::detail::float_pow10<FloatType>(digits) / 10) * 10
+				);
 		}
 
 		//
@@ -200,7 +208,7 @@ namespace sprout {
 		template<typename FloatType>
 		inline SPROUT_CONSTEXPR int
 		float_digits_checked_impl(FloatType val, int digits) {
-			return val == 0 ? digits
+			return digits == 1 ? digits
 				: sprout::detail::float_digit_at(val, digits - 1) == 0 ? digits - 1 : digits
 				;
 		}
@@ -219,7 +227,9 @@ namespace sprout {
 		template<typename FloatType>
 		inline SPROUT_CONSTEXPR FloatType
 		float_round_impl(FloatType val, FloatType p10) {
-			return sprout::math::round(val * p10) / p10;
+			return val * sprout::numeric_limits<FloatType>::epsilon() > 1 ? val
+				: sprout::math::round(val * p10) / p10
+				;
 		}
 		template<
 			typename FloatType,
diff --git a/sprout/string/float_to_string.hpp b/sprout/string/float_to_string.hpp
index 8427f12..0f49a10 100644
--- a/sprout/string/float_to_string.hpp
+++ b/sprout/string/float_to_string.hpp
@@ -20,6 +20,7 @@
 #include <sprout/math/isnan.hpp>
 #include <sprout/math/signbit.hpp>
 #include <sprout/math/floor.hpp>
+#include <sprout/math/round.hpp>
 #include <sprout/tpp/algorithm/max_element.hpp>
 #include <sprout/detail/char_literal.hpp>
 #include <sprout/detail/char_conversion.hpp>
@@ -39,11 +40,19 @@ namespace sprout {
 	struct printed_float_digits
 		: public sprout::integral_constant<
 			std::size_t,
-			sprout::numeric_limits<FloatType>::max_exponent10 + sprout::detail::decimal_places_length + 2
+			sprout::numeric_limits<FloatType>::max_exponent10 + sprout::detail::decimal_places_length + 3
 		>
 	{};
 
 	namespace detail {
+		template<typename FloatType>
+		inline SPROUT_CONSTEXPR int
+		float_decimal_places(FloatType val) {
+			return static_cast<int>(
+				sprout::math::round((val - sprout::math::floor(val)) * sprout::detail::int_pow<int>(sprout::detail::decimal_places_length))
+				);
+		}
+
 		template<typename Elem, typename FloatType, sprout::index_t... Indexes>
 		inline SPROUT_CONSTEXPR sprout::basic_string<Elem, sprout::printed_float_digits<FloatType>::value>
 		float_to_string_impl(FloatType val, bool negative, int digits, int v, sprout::index_tuple<Indexes...>) {
@@ -74,10 +83,15 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR sprout::basic_string<Elem, sprout::printed_float_digits<FloatType>::value>
 		float_to_string(FloatType val, bool negative, int digits) {
 			return sprout::detail::float_to_string_impl<Elem>(
-				val, negative, digits, static_cast<int>((val - sprout::math::floor(val)) * sprout::detail::int_pow<int>(sprout::detail::decimal_places_length)),
+				val, negative, digits, sprout::detail::float_decimal_places(val),
 				sprout::make_index_tuple<sprout::printed_float_digits<FloatType>::value - 1>::make()
 				);
 		}
+		template<typename Elem, typename FloatType>
+		inline SPROUT_CONSTEXPR sprout::basic_string<Elem, sprout::printed_float_digits<FloatType>::value>
+		float_to_string_rounded(FloatType val, bool negative) {
+			return sprout::detail::float_to_string<Elem>(val, negative, sprout::detail::float_digits_checked(val));
+		}
 	}	// namespace detail
 
 	//
@@ -96,10 +110,9 @@ namespace sprout {
 			: sprout::math::isnan(val) ? sprout::math::signbit(val)
 				? access_type::raw_construct(4, SPROUT_CHAR_LITERAL('-', Elem), SPROUT_CHAR_LITERAL('n', Elem), SPROUT_CHAR_LITERAL('a', Elem), SPROUT_CHAR_LITERAL('n', Elem))
 				: access_type::raw_construct(3, SPROUT_CHAR_LITERAL('n', Elem), SPROUT_CHAR_LITERAL('a', Elem), SPROUT_CHAR_LITERAL('n', Elem))
-			: sprout::detail::float_to_string<Elem>(
+			: sprout::detail::float_to_string_rounded<Elem>(
 				sprout::detail::float_round_at(val < 0 ? -val : val, sprout::detail::decimal_places_length),
-				sprout::math::signbit(val),
-				sprout::detail::float_digits_checked(val)
+				sprout::math::signbit(val)
 				)
 			;
 	}
@@ -137,7 +150,7 @@ namespace sprout {
 					(Indexes == 0 ? sprout::detail::int_to_char<Elem>(sprout::detail::float_digit_at(val, 0))
 						: Indexes == 1 ? SPROUT_CHAR_LITERAL('.', Elem)
 						: Indexes < 2 + sprout::detail::decimal_places_length
-							? sprout::detail::int_to_char<Elem>(sprout::detail::float_digit_at(val, 1 - Indexes))
+							? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at(sprout::detail::float_decimal_places(val), 1 + sprout::detail::decimal_places_length - Indexes))
 						: Indexes == 2 + sprout::detail::decimal_places_length ? SPROUT_CHAR_LITERAL('e', Elem)
 						: Indexes == 3 + sprout::detail::decimal_places_length ? (exponent10 < 0 ? SPROUT_CHAR_LITERAL('-', Elem) : SPROUT_CHAR_LITERAL('+', Elem))
 						: Indexes < 4 + sprout::detail::decimal_places_length + e10_digits
@@ -150,7 +163,7 @@ namespace sprout {
 					(Indexes == 0 ? sprout::detail::int_to_char<Elem>(sprout::detail::float_digit_at(val, 0))
 						: Indexes == 1 ? SPROUT_CHAR_LITERAL('.', Elem)
 						: Indexes < 2 + sprout::detail::decimal_places_length
-							? sprout::detail::int_to_char<Elem>(sprout::detail::float_digit_at(val, 1 - Indexes))
+							? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at(sprout::detail::float_decimal_places(val), 1 + sprout::detail::decimal_places_length - Indexes))
 						: Indexes == 2 + sprout::detail::decimal_places_length ? SPROUT_CHAR_LITERAL('e', Elem)
 						: Indexes == 3 + sprout::detail::decimal_places_length ? (exponent10 < 0 ? SPROUT_CHAR_LITERAL('-', Elem) : SPROUT_CHAR_LITERAL('+', Elem))
 						: Indexes < 4 + sprout::detail::decimal_places_length + e10_digits
@@ -160,6 +173,27 @@ namespace sprout {
 					)
 				;
 		}
+		template<typename Elem, typename FloatType>
+		inline SPROUT_CONSTEXPR sprout::basic_string<Elem, sprout::printed_float_exp_digits<FloatType>::value>
+		float_to_string_exp_rounded(FloatType val, bool negative, int exponent10) {
+			return sprout::detail::float_to_string_exp<Elem>(
+				val, negative, exponent10,
+				NS_SSCRISK_CEL_OR_SPROUT::max(sprout::detail::int_digits(exponent10), 2),
+				sprout::make_index_tuple<sprout::printed_float_exp_digits<FloatType>::value - 1>::make()
+				);
+		}
+		template<typename Elem, typename FloatType>
+		inline SPROUT_CONSTEXPR sprout::basic_string<Elem, sprout::printed_float_exp_digits<FloatType>::value>
+		float_to_string_exp_scaled(FloatType val, bool negative, int exponent10) {
+			return sprout::detail::float_round_at(val, sprout::detail::decimal_places_length) < 10
+				? sprout::detail::float_to_string_exp_rounded<Elem>(
+					sprout::detail::float_round_at(val, sprout::detail::decimal_places_length), negative, exponent10
+					)
+				: sprout::detail::float_to_string_exp_rounded<Elem>(
+					sprout::detail::float_round_at(val / 10, sprout::detail::decimal_places_length), negative, exponent10 + 1
+					)
+				;
+		}
 	}	// namespace detail
 
 	//
@@ -178,15 +212,10 @@ namespace sprout {
 			: sprout::math::isnan(val) ? sprout::math::signbit(val)
 				? access_type::raw_construct(4, SPROUT_CHAR_LITERAL('-', Elem), SPROUT_CHAR_LITERAL('n', Elem), SPROUT_CHAR_LITERAL('a', Elem), SPROUT_CHAR_LITERAL('n', Elem))
 				: access_type::raw_construct(3, SPROUT_CHAR_LITERAL('n', Elem), SPROUT_CHAR_LITERAL('a', Elem), SPROUT_CHAR_LITERAL('n', Elem))
-			: sprout::detail::float_to_string_exp<Elem>(
-				sprout::detail::float_round_at(
-					(val < 0 ? -val : val) / sprout::detail::float_pow10<FloatType>(sprout::detail::float_exponent10(val)),
-					sprout::detail::decimal_places_length
-					),
+			: sprout::detail::float_to_string_exp_scaled<Elem>(
+				(val < 0 ? -val : val) / sprout::detail::float_pow10<FloatType>(sprout::detail::float_exponent10(val)),
 				sprout::math::signbit(val),
-				sprout::detail::float_exponent10(val),
-				NS_SSCRISK_CEL_OR_SPROUT::max(sprout::detail::int_digits(sprout::detail::float_exponent10(val)), 2),
-				sprout::make_index_tuple<sprout::printed_float_exp_digits<FloatType>::value - 1>::make()
+				sprout::detail::float_exponent10(val)
 				)
 			;
 	}
-- 
2.43.0


From 8fe4ce6d54c490412bf7a9123abbd87fc2332692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:51 +0000
Subject: [PATCH 033/185] fix: int_to_string failed for bases above ten

---
 sprout/string/int_to_string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/string/int_to_string.hpp b/sprout/string/int_to_string.hpp
index 2d465f8..a705d37 100644
--- a/sprout/string/int_to_string.hpp
+++ b/sprout/string/int_to_string.hpp
@@ -46,13 +46,13 @@ namespace sprout {
 			return val < 0 ? access_type::raw_construct(
 					static_cast<std::size_t>(digits + 1),
 					SPROUT_CHAR_LITERAL('-', Elem),
-					(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes))
+					(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes), Base)
 						: Elem()
 						)...
 					)
 				: access_type::raw_construct(
 					static_cast<std::size_t>(digits),
-					(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes))
+					(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes), Base)
 						: Elem()
 						)...
 					)
@@ -68,7 +68,7 @@ namespace sprout {
 			typedef sprout::detail::string_construct_access<Elem, sprout::printed_integer_digits<IntType, Base>::value> access_type;
 			return access_type::raw_construct(
 				static_cast<std::size_t>(digits),
-				(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes))
+				(Indexes < digits ? sprout::detail::int_to_char<Elem>(sprout::detail::int_digit_at<Base>(val, digits - 1 - Indexes), Base)
 					: Elem()
 					)...
 				);
-- 
2.43.0


From 13b1f50b67c28b2fabf7426b90ec1f96f7db7464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:33 +0000
Subject: [PATCH 034/185] fix: the minimum of a signed type did not convert to
 a binary, octal or hexadecimal string

---
 sprout/detail/math/int.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sprout/detail/math/int.hpp b/sprout/detail/math/int.hpp
index 6c1465f..0f013ed 100644
--- a/sprout/detail/math/int.hpp
+++ b/sprout/detail/math/int.hpp
@@ -84,8 +84,9 @@ namespace sprout {
 		>
 		inline SPROUT_CONSTEXPR int
 		int_digit_at(IntType val, int digits) {
-			return val < 0 ? -((val / sprout::detail::int_pow<IntType, Base>(digits)) % Base)
-				: (val / sprout::detail::int_pow<IntType, Base>(digits)) % Base
+			return digits > 0 ? sprout::detail::int_digit_at<Base>(static_cast<IntType>(val / Base), digits - 1)
+				: val < 0 ? -(val % Base)
+				: val % Base
 				;
 		}
 		template<
-- 
2.43.0


From 948fff436acbeeb77994e727176f6ba2753dca1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:33 +0000
Subject: [PATCH 035/185] fix: str_to_int with an end pointer truncated out of
 range values of narrow types

---
 sprout/cstdlib/str_to_int.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sprout/cstdlib/str_to_int.hpp b/sprout/cstdlib/str_to_int.hpp
index 0518f72..e753ccf 100644
--- a/sprout/cstdlib/str_to_int.hpp
+++ b/sprout/cstdlib/str_to_int.hpp
@@ -123,6 +123,8 @@ namespace sprout {
 						: sizeof(IntType) <= sizeof(unsigned long long) ? static_cast<IntType>(::strtoull(&*str, endptr, base))
 						: static_cast<IntType>(std::strtoumax(&*str, endptr, base))
 #else
+				: sizeof(IntType) < sizeof(long)
+					? ((void)std::strtol(&*str, endptr, base), sprout::detail::str_to_int<IntType>(str, base))
 				: sprout::is_signed<IntType>::value
 					? sizeof(IntType) <= sizeof(long) ? static_cast<IntType>(std::strtol(&*str, endptr, base))
 						: sizeof(IntType) <= sizeof(long long) ? static_cast<IntType>(std::strtoll(&*str, endptr, base))
-- 
2.43.0


From d9054f91bf8001e72b23341cd4d2578c698523a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:19 +0000
Subject: [PATCH 036/185] fix: to_string buffers in power-of-two bases lacked
 room for the minimum of signed types

---
 sprout/string/int_to_string.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/sprout/string/int_to_string.hpp b/sprout/string/int_to_string.hpp
index a705d37..110937a 100644
--- a/sprout/string/int_to_string.hpp
+++ b/sprout/string/int_to_string.hpp
@@ -23,6 +23,21 @@
 #include <sprout/detail/math/int.hpp>
 
 namespace sprout {
+	namespace detail {
+		// number of digits of the largest magnitude: for a signed type, that of its minimum
+		template<typename IntType, std::size_t Base, bool = sprout::is_signed<IntType>::value>
+		struct integer_magnitude_digits
+			: public sprout::integer_digits<IntType, Base>
+		{};
+		template<typename IntType, std::size_t Base>
+		struct integer_magnitude_digits<IntType, Base, true>
+			: public sprout::integral_constant<
+				std::size_t,
+				sprout::integer_digits<IntType, Base>::value + ((Base & (Base - 1)) == 0 ? 1 : 0)
+			>
+		{};
+	}	// namespace detail
+
 	//
 	// printed_integer_digits
 	//
@@ -30,7 +45,7 @@ namespace sprout {
 	struct printed_integer_digits
 		: public sprout::integral_constant<
 			std::size_t,
-			sprout::integer_digits<IntType, Base>::value + (sprout::is_signed<IntType>::value ? 1 : 0)
+			sprout::detail::integer_magnitude_digits<IntType, Base>::value + (sprout::is_signed<IntType>::value ? 1 : 0)
 		>
 	{};
 
@@ -87,7 +102,7 @@ namespace sprout {
 		return sprout::detail::int_to_string<Elem, Base>(
 			val,
 			sprout::detail::int_digits<Base>(val),
-			sprout::make_index_tuple<sprout::integer_digits<IntType, Base>::value>::make()
+			sprout::make_index_tuple<sprout::detail::integer_magnitude_digits<IntType, Base>::value>::make()
 			);
 	}
 
-- 
2.43.0


From 83dbcd4625719e8c430613891d02bbb791e654fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:39 +0000
Subject: [PATCH 037/185] fix: isclassified ignored its mask

---
 sprout/ctype/ascii.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/sprout/ctype/ascii.hpp b/sprout/ctype/ascii.hpp
index 0352dc1..32acd17 100644
--- a/sprout/ctype/ascii.hpp
+++ b/sprout/ctype/ascii.hpp
@@ -250,18 +250,18 @@ namespace sprout {
 		} \
 		inline SPROUT_CONSTEXPR bool \
 		SPROUT_PP_CAT(is, SPROUT_PP_CAT(PREFIX, classified))(sprout::ctypes::mask m, CHAR_TYPE c) { \
-			return (m | sprout::ctypes::alnum && (sprout::ascii::detail::get_value(c) & (sprout::ascii::detail::alpha | sprout::ascii::detail::digit))) \
-				|| (m | sprout::ctypes::alpha && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::alpha)) \
-				|| (m | sprout::ctypes::blank && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::blank)) \
-				|| (m | sprout::ctypes::cntrl && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::cntrl)) \
-				|| (m | sprout::ctypes::digit && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::digit)) \
-				|| (m | sprout::ctypes::graph && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::graph)) \
-				|| (m | sprout::ctypes::lower && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::lower)) \
-				|| (m | sprout::ctypes::print && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::print)) \
-				|| (m | sprout::ctypes::punct && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::punct)) \
-				|| (m | sprout::ctypes::space && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::space)) \
-				|| (m | sprout::ctypes::upper && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::upper)) \
-				|| (m | sprout::ctypes::xdigit && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::xdigit)) \
+			return ((m & sprout::ctypes::alnum) == sprout::ctypes::alnum && (sprout::ascii::detail::get_value(c) & (sprout::ascii::detail::alpha | sprout::ascii::detail::digit))) \
+				|| ((m & sprout::ctypes::alpha) == sprout::ctypes::alpha && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::alpha)) \
+				|| ((m & sprout::ctypes::blank) == sprout::ctypes::blank && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::blank)) \
+				|| ((m & sprout::ctypes::cntrl) == sprout::ctypes::cntrl && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::cntrl)) \
+				|| ((m & sprout::ctypes::digit) == sprout::ctypes::digit && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::digit)) \
+				|| ((m & sprout::ctypes::graph) == sprout::ctypes::graph && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::graph)) \
+				|| ((m & sprout::ctypes::lower) == sprout::ctypes::lower && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::lower)) \
+				|| ((m & sprout::ctypes::print) == sprout::ctypes::print && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::print)) \
+				|| ((m & sprout::ctypes::punct) == sprout::ctypes::punct && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::punct)) \
+				|| ((m & sprout::ctypes::space) == sprout::ctypes::space && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::space)) \
+				|| ((m & sprout::ctypes::upper) == sprout::ctypes::upper && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::upper)) \
+				|| ((m & sprout::ctypes::xdigit) == sprout::ctypes::xdigit && (sprout::ascii::detail::get_value(c) & sprout::ascii::detail::xdigit)) \
 				; \
 		}
 
-- 
2.43.0


From 916d897965a4b378dc7e41027d31c4ce4a488b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:22 +0000
Subject: [PATCH 038/185] fix: bitset::find_first and find_next did not compile

---
 sprout/bitset/bitset.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/bitset/bitset.hpp b/sprout/bitset/bitset.hpp
index 1bab338..c860317 100644
--- a/sprout/bitset/bitset.hpp
+++ b/sprout/bitset/bitset.hpp
@@ -1389,11 +1389,11 @@ namespace sprout {
 
 		SPROUT_CONSTEXPR size_type
 		find_first() const SPROUT_NOEXCEPT {
-			return this->find_first(N);
+			return base_type::find_first(N);
 		}
 		SPROUT_CONSTEXPR size_type
 		find_next(size_type prev) const SPROUT_NOEXCEPT {
-			return this->find_next(prev, N);
+			return base_type::find_next(prev, N);
 		}
 
 	public:
-- 
2.43.0


From 9e2d3f1de7633473e217d4efc3ac16fd59624ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:22 +0000
Subject: [PATCH 039/185] fix: the bitset constructor from a character pointer
 was never viable

---
 sprout/bitset/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/bitset/bitset.hpp b/sprout/bitset/bitset.hpp
index c860317..9e850de 100644
--- a/sprout/bitset/bitset.hpp
+++ b/sprout/bitset/bitset.hpp
@@ -1146,7 +1146,7 @@ namespace sprout {
 		}
 		template<typename Char>
 		explicit SPROUT_NON_CONSTEXPR bitset(
-			Char const* str, typename std::basic_string<Char>::size_typeype n = std::basic_string<Char>::npos,
+			Char const* str, typename std::basic_string<Char>::size_type n = std::basic_string<Char>::npos,
 			Char zero = SPROUT_CHAR_LITERAL('0', Char), Char one = SPROUT_CHAR_LITERAL('1', Char)
 			)
 			: base_type()
-- 
2.43.0


From 261022895eb33728c670d642b28b1aea15dc0557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:20 +0000
Subject: [PATCH 040/185] fix: bitset::find_next did not compile for more than
 one word

---
 sprout/bitset/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/bitset/bitset.hpp b/sprout/bitset/bitset.hpp
index 9e850de..b1cf2c9 100644
--- a/sprout/bitset/bitset.hpp
+++ b/sprout/bitset/bitset.hpp
@@ -123,7 +123,7 @@ namespace sprout {
 				return first == last ? not_found
 					: *first != static_cast<word_type>(0)
 						? i * (CHAR_BIT * sprout::detail::sizeof_<unsigned long>::value) + sprout::ctz(*first)
-					: find_next_impl_2(not_found, first + 1, last)
+					: find_next_impl_2(not_found, first + 1, last, i + 1)
 					;
 			}
 			SPROUT_CONSTEXPR size_type
-- 
2.43.0


From 42dd4d7ebe743213952c9d916c4ce0bf9511b9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:43 +0000
Subject: [PATCH 041/185] fix: a bitset of more than one word constructed from
 an integer shifted it by its full width

---
 sprout/bitset/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/bitset/bitset.hpp b/sprout/bitset/bitset.hpp
index b1cf2c9..6adf931 100644
--- a/sprout/bitset/bitset.hpp
+++ b/sprout/bitset/bitset.hpp
@@ -230,7 +230,7 @@ namespace sprout {
 			{}
 			base_bitset(base_bitset<N> const&) = default;
 			SPROUT_CONSTEXPR base_bitset(unsigned long long val) SPROUT_NOEXCEPT
-				: w_{word_type(val), word_type(val >> (CHAR_BIT * sprout::detail::sizeof_<unsigned long>::value))}
+				: w_{word_type(val), word_type((val >> (CHAR_BIT * sprout::detail::sizeof_<unsigned long>::value - 1)) >> 1)}
 			{}
 			template<typename... Words>
 			SPROUT_CONSTEXPR base_bitset(sprout::detail::base_bitset_from_words_construct_tag, Words... words)
-- 
2.43.0


From 66b75904df0275540d8a043f9ceb3f21a25da4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:43 +0000
Subject: [PATCH 042/185] fix: extracting a bitset did not stop at, or fail on,
 a character other than 0 and 1

---
 sprout/bitset/io.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sprout/bitset/io.hpp b/sprout/bitset/io.hpp
index 1b83d86..3c34845 100644
--- a/sprout/bitset/io.hpp
+++ b/sprout/bitset/io.hpp
@@ -44,8 +44,10 @@ namespace sprout {
 							tmp.push_back(zero);
 						} else if (Traits::eq(c2, one)) {
 							tmp.push_back(one);
-						} else if (Traits::eq_int_type(lhs.rdbuf()->sputbackc(c2), eof)) {
-							state |= ios_base::failbit;
+						} else {
+							if (Traits::eq_int_type(lhs.rdbuf()->sputbackc(c2), eof)) {
+								state |= ios_base::failbit;
+							}
 							break;
 						}
 					}
@@ -58,10 +60,9 @@ namespace sprout {
 			state |= ios_base::failbit;
 		} else {
 			rhs.copy_from_string(tmp, static_cast<std::size_t>(0), N, zero, one);
-			if (state) {
-				lhs.setstate(state);
-				return lhs;
-			}
+		}
+		if (state) {
+			lhs.setstate(state);
 		}
 		return lhs;
 	}
-- 
2.43.0


From 6a98a904ce6789c37b836d7544c81f76dd031dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:40 +0000
Subject: [PATCH 043/185] fix: cntl1 and clrsb counted leading ones or
 redundant sign bits depending on the type

---
 sprout/bit/clrsb.hpp | 3 ++-
 sprout/bit/cntl1.hpp | 4 ++--
 sprout/bit/cntt1.hpp | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/sprout/bit/clrsb.hpp b/sprout/bit/clrsb.hpp
index 96f5bc4..c3b0e6c 100644
--- a/sprout/bit/clrsb.hpp
+++ b/sprout/bit/clrsb.hpp
@@ -11,6 +11,7 @@
 #include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/bit/clz.hpp>
+#include <sprout/bit/shar.hpp>
 
 namespace sprout {
 	namespace detail {
@@ -31,7 +32,7 @@ namespace sprout {
 		template<typename Integral>
 		inline SPROUT_CONSTEXPR int
 		clrsb(Integral x) SPROUT_NOEXCEPT {
-			return sprout::clz(~x);
+			return sprout::clz(static_cast<Integral>(x ^ sprout::shar(x, 1))) - 1;
 		}
 	}	// namespace detail
 	//
diff --git a/sprout/bit/cntl1.hpp b/sprout/bit/cntl1.hpp
index a54b84f..b1cd2f8 100644
--- a/sprout/bit/cntl1.hpp
+++ b/sprout/bit/cntl1.hpp
@@ -10,7 +10,7 @@
 
 #include <type_traits>
 #include <sprout/config.hpp>
-#include <sprout/bit/clrsb.hpp>
+#include <sprout/bit/clz.hpp>
 
 namespace sprout {
 	//
@@ -22,7 +22,7 @@ namespace sprout {
 		int
 	>::type
 	cntl1(Integral x) SPROUT_NOEXCEPT {
-		return sprout::clrsb(x);
+		return sprout::clz(static_cast<Integral>(~x));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/cntt1.hpp b/sprout/bit/cntt1.hpp
index 0a6b207..76d9500 100644
--- a/sprout/bit/cntt1.hpp
+++ b/sprout/bit/cntt1.hpp
@@ -22,7 +22,7 @@ namespace sprout {
 		int
 	>::type
 	cntt1(Integral x) SPROUT_NOEXCEPT {
-		return sprout::ctz(~x);
+		return sprout::ctz(static_cast<Integral>(~x));
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 8a5804687430b017d237e81737e58924f80843ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:40 +0000
Subject: [PATCH 044/185] fix: rotl and rotr by 0 shifted by the full width,
 and rotated negative values with an arithmetic shift

---
 sprout/bit/rotl.hpp | 5 ++++-
 sprout/bit/rotr.hpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/sprout/bit/rotl.hpp b/sprout/bit/rotl.hpp
index 3e39668..704e02f 100644
--- a/sprout/bit/rotl.hpp
+++ b/sprout/bit/rotl.hpp
@@ -11,6 +11,7 @@
 #include <climits>
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/bit/shll.hpp>
 #include <sprout/bit/shlr.hpp>
 
 namespace sprout {
@@ -23,7 +24,9 @@ namespace sprout {
 		Integral
 	>::type
 	rotl(Integral x, int s) SPROUT_NOEXCEPT {
-		return (x << s) | sprout::shlr(x, sizeof(x) * CHAR_BIT - s);
+		return s == 0 ? x
+			: static_cast<Integral>(sprout::shll(x, s) | sprout::shlr(x, sizeof(x) * CHAR_BIT - s))
+			;
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/rotr.hpp b/sprout/bit/rotr.hpp
index 3327e01..45d2676 100644
--- a/sprout/bit/rotr.hpp
+++ b/sprout/bit/rotr.hpp
@@ -11,6 +11,7 @@
 #include <climits>
 #include <type_traits>
 #include <sprout/config.hpp>
+#include <sprout/bit/shll.hpp>
 #include <sprout/bit/shlr.hpp>
 
 namespace sprout {
@@ -23,7 +24,9 @@ namespace sprout {
 		Integral
 	>::type
 	rotr(Integral x, int s) SPROUT_NOEXCEPT {
-		return sprout::shlr(x, s) | (x << (sizeof(x) * CHAR_BIT - s));
+		return s == 0 ? x
+			: static_cast<Integral>(sprout::shlr(x, s) | sprout::shll(x, sizeof(x) * CHAR_BIT - s))
+			;
 	}
 }	// namespace sprout
 
-- 
2.43.0


From df94066593688eed782ee03a72711310a6da8f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:40 +0000
Subject: [PATCH 045/185] fix: the bit range operations overflowed at the top
 bit

---
 sprout/bit/flipbitsge.hpp | 3 ++-
 sprout/bit/flipbitsle.hpp | 3 ++-
 sprout/bit/rstbitsge.hpp  | 3 ++-
 sprout/bit/rstbitsle.hpp  | 3 ++-
 sprout/bit/setbitsge.hpp  | 3 ++-
 sprout/bit/setbitsle.hpp  | 3 ++-
 6 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/sprout/bit/flipbitsge.hpp b/sprout/bit/flipbitsge.hpp
index 06effdb..78b846c 100644
--- a/sprout/bit/flipbitsge.hpp
+++ b/sprout/bit/flipbitsge.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	flipbitsge(Integral x, int b) SPROUT_NOEXCEPT {
-		return x ^ ~((Integral(1) << b) - 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) ^ ~((static_cast<type>(1) << b) - 1));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/flipbitsle.hpp b/sprout/bit/flipbitsle.hpp
index 4590515..69feddc 100644
--- a/sprout/bit/flipbitsle.hpp
+++ b/sprout/bit/flipbitsle.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	flipbitsle(Integral x, int b) SPROUT_NOEXCEPT {
-		return x ^ ((Integral(1) << (b + 1)) - 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) ^ ((static_cast<type>(2) << b) - 1));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/rstbitsge.hpp b/sprout/bit/rstbitsge.hpp
index 61b605a..89c3526 100644
--- a/sprout/bit/rstbitsge.hpp
+++ b/sprout/bit/rstbitsge.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	rstbitsge(Integral x, int b) SPROUT_NOEXCEPT {
-		return x & ((Integral(1) << b) - 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) & ((static_cast<type>(1) << b) - 1));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/rstbitsle.hpp b/sprout/bit/rstbitsle.hpp
index 8f5044f..a5cab0e 100644
--- a/sprout/bit/rstbitsle.hpp
+++ b/sprout/bit/rstbitsle.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	rstbitsle(Integral x, int b) SPROUT_NOEXCEPT {
-		return x & ~((Integral(1) << (b + 1)) - 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) & ~((static_cast<type>(2) << b) - 1));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/setbitsge.hpp b/sprout/bit/setbitsge.hpp
index ea82f41..385a70e 100644
--- a/sprout/bit/setbitsge.hpp
+++ b/sprout/bit/setbitsge.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	setbitsge(Integral x, int b) SPROUT_NOEXCEPT {
-		return x | ~((Integral(1) << b) - 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) | ~((static_cast<type>(1) << b) - 1));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/setbitsle.hpp b/sprout/bit/setbitsle.hpp
index 604ad71..05af846 100644
--- a/sprout/bit/setbitsle.hpp
+++ b/sprout/bit/setbitsle.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	setbitsle(Integral x, int b) SPROUT_NOEXCEPT {
-		return x | ((Integral(1) << (b + 1)) - 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) | ((static_cast<type>(2) << b) - 1));
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 0c3b462136e176a88129531661a6b1e0d1aa8548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:40 +0000
Subject: [PATCH 046/185] fix: the rightmost bit operations overflowed for the
 limits of signed types

---
 sprout/bit/isols0b.hpp    | 3 ++-
 sprout/bit/isols1b.hpp    | 3 ++-
 sprout/bit/maskt0.hpp     | 3 ++-
 sprout/bit/maskt0ls1b.hpp | 3 ++-
 sprout/bit/maskt1.hpp     | 3 ++-
 sprout/bit/maskt1ls0b.hpp | 3 ++-
 sprout/bit/rstls1b.hpp    | 3 ++-
 sprout/bit/rstt1.hpp      | 3 ++-
 sprout/bit/setls0b.hpp    | 3 ++-
 sprout/bit/sett0.hpp      | 3 ++-
 10 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/sprout/bit/isols0b.hpp b/sprout/bit/isols0b.hpp
index c5dc1a2..6d539a7 100644
--- a/sprout/bit/isols0b.hpp
+++ b/sprout/bit/isols0b.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	isols0b(Integral x) SPROUT_NOEXCEPT {
-		return ~x & (x + 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>(~static_cast<type>(x) & (static_cast<type>(x) + 1));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/isols1b.hpp b/sprout/bit/isols1b.hpp
index 22102e8..884750b 100644
--- a/sprout/bit/isols1b.hpp
+++ b/sprout/bit/isols1b.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	isols1b(Integral x) SPROUT_NOEXCEPT {
-		return x & -x;
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) & -static_cast<type>(x));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/maskt0.hpp b/sprout/bit/maskt0.hpp
index c8f7903..8f7cd8a 100644
--- a/sprout/bit/maskt0.hpp
+++ b/sprout/bit/maskt0.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	maskt0(Integral x) SPROUT_NOEXCEPT {
-		return ~x & (x - 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>(~static_cast<type>(x) & (static_cast<type>(x) - 1));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/maskt0ls1b.hpp b/sprout/bit/maskt0ls1b.hpp
index 26c8ef9..2db53d3 100644
--- a/sprout/bit/maskt0ls1b.hpp
+++ b/sprout/bit/maskt0ls1b.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	maskt0ls1b(Integral x) SPROUT_NOEXCEPT {
-		return (x - 1) ^ x;
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>((static_cast<type>(x) - 1) ^ static_cast<type>(x));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/maskt1.hpp b/sprout/bit/maskt1.hpp
index 76190b3..7e667b0 100644
--- a/sprout/bit/maskt1.hpp
+++ b/sprout/bit/maskt1.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	maskt1(Integral x) SPROUT_NOEXCEPT {
-		return ~(~x | (x + 1));
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>(~(~static_cast<type>(x) | (static_cast<type>(x) + 1)));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/maskt1ls0b.hpp b/sprout/bit/maskt1ls0b.hpp
index f218c31..6d59c54 100644
--- a/sprout/bit/maskt1ls0b.hpp
+++ b/sprout/bit/maskt1ls0b.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	maskt1ls0b(Integral x) SPROUT_NOEXCEPT {
-		return x ^ (x + 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) ^ (static_cast<type>(x) + 1));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/rstls1b.hpp b/sprout/bit/rstls1b.hpp
index d3ada72..d4b62f0 100644
--- a/sprout/bit/rstls1b.hpp
+++ b/sprout/bit/rstls1b.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	rstls1b(Integral x) SPROUT_NOEXCEPT {
-		return x & (x - 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) & (static_cast<type>(x) - 1));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/rstt1.hpp b/sprout/bit/rstt1.hpp
index 96253f6..96f54a8 100644
--- a/sprout/bit/rstt1.hpp
+++ b/sprout/bit/rstt1.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	rstt1(Integral x) SPROUT_NOEXCEPT {
-		return x & (x + 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) & (static_cast<type>(x) + 1));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/setls0b.hpp b/sprout/bit/setls0b.hpp
index 496971d..d753f70 100644
--- a/sprout/bit/setls0b.hpp
+++ b/sprout/bit/setls0b.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	setls0b(Integral x) SPROUT_NOEXCEPT {
-		return x | (x + 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) | (static_cast<type>(x) + 1));
 	}
 }	// namespace sprout
 
diff --git a/sprout/bit/sett0.hpp b/sprout/bit/sett0.hpp
index 6c5f801..0208bf8 100644
--- a/sprout/bit/sett0.hpp
+++ b/sprout/bit/sett0.hpp
@@ -21,7 +21,8 @@ namespace sprout {
 		Integral
 	>::type
 	sett0(Integral x) SPROUT_NOEXCEPT {
-		return x | (x - 1);
+		typedef typename std::make_unsigned<Integral>::type type;
+		return static_cast<Integral>(static_cast<type>(x) | (static_cast<type>(x) - 1));
 	}
 }	// namespace sprout
 
-- 
2.43.0


From 02b5f91ac5fe4a78e3bfee1599da6f7eed41c22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:28 +0000
Subject: [PATCH 047/185] fix: fit::partition and fit::stable_partition kept as
 many elements as do not satisfy the predicate

---
 sprout/algorithm/fit/partition.hpp        | 2 +-
 sprout/algorithm/fit/stable_partition.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/fit/partition.hpp b/sprout/algorithm/fit/partition.hpp
index 895b451..bbe9078 100644
--- a/sprout/algorithm/fit/partition.hpp
+++ b/sprout/algorithm/fit/partition.hpp
@@ -30,7 +30,7 @@ namespace sprout {
 				return sprout::sub_copy(
 					sprout::get_internal(sprout::fixed::partition(cont, pred)),
 					offset,
-					offset + sprout::size(cont) - sprout::count_if(sprout::begin(cont), sprout::end(cont), pred)
+					offset + sprout::count_if(sprout::begin(cont), sprout::end(cont), pred)
 					);
 			}
 		}	// namespace detail
diff --git a/sprout/algorithm/fit/stable_partition.hpp b/sprout/algorithm/fit/stable_partition.hpp
index 728dca9..d4d1f20 100644
--- a/sprout/algorithm/fit/stable_partition.hpp
+++ b/sprout/algorithm/fit/stable_partition.hpp
@@ -30,7 +30,7 @@ namespace sprout {
 				return sprout::sub_copy(
 					sprout::get_internal(sprout::fixed::stable_partition(cont, pred)),
 					offset,
-					offset + sprout::size(cont) - sprout::count_if(sprout::begin(cont), sprout::end(cont), pred)
+					offset + sprout::count_if(sprout::begin(cont), sprout::end(cont), pred)
 					);
 			}
 		}	// namespace detail
-- 
2.43.0


From ca2bb1231668039c938ee8b160d753d24f698282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:33 +0000
Subject: [PATCH 048/185] fix: fixed::unique_copy into an empty window changed
 the element at the window

---
 sprout/algorithm/fixed/unique_copy.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/algorithm/fixed/unique_copy.hpp b/sprout/algorithm/fixed/unique_copy.hpp
index 5fd51ac..6f5a3ea 100644
--- a/sprout/algorithm/fixed/unique_copy.hpp
+++ b/sprout/algorithm/fixed/unique_copy.hpp
@@ -66,7 +66,7 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			unique_copy(InputIterator const& first, InputIterator const& last, Result const& result) {
-				return first != last
+				return first != last && sprout::size(result) != 0
 					? sprout::fixed::detail::unique_copy_impl(sprout::next(first), last, result, sprout::size(result), *first)
 					: sprout::detail::container_complate(result)
 					;
@@ -144,7 +144,7 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			unique_copy(InputIterator const& first, InputIterator const& last, Result const& result, BinaryPredicate pred) {
-				return first != last
+				return first != last && sprout::size(result) != 0
 					? sprout::fixed::detail::unique_copy_impl(sprout::next(first), last, result, pred, sprout::size(result), *first)
 					: sprout::detail::container_complate(result)
 					;
-- 
2.43.0


From ffdebc016c22e225f5bae688e720b4ad866c036c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:20 +0000
Subject: [PATCH 049/185] fix: fixed::sort and fixed::stable_sort of an empty
 window read past it

---
 sprout/algorithm/fixed/stable_sort.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/sprout/algorithm/fixed/stable_sort.hpp b/sprout/algorithm/fixed/stable_sort.hpp
index 218f266..57ad944 100644
--- a/sprout/algorithm/fixed/stable_sort.hpp
+++ b/sprout/algorithm/fixed/stable_sort.hpp
@@ -179,15 +179,17 @@ namespace sprout {
 				typename sprout::container_traits<Container>::size_type size
 				)
 			{
-				return sprout::fixed::detail::stable_sort_impl_1(
-					cont, comp,
-					size,
-					sprout::next(sprout::begin(cont)),
-					sprout::end(cont),
-					*sprout::begin(cont),
-					1,
-					sprout::begin(cont)
-					);
+				return size == 0 ? sprout::deep_copy(cont)
+					: sprout::fixed::detail::stable_sort_impl_1(
+						cont, comp,
+						size,
+						sprout::next(sprout::begin(cont)),
+						sprout::end(cont),
+						*sprout::begin(cont),
+						1,
+						sprout::begin(cont)
+						)
+					;
 			}
 			template<typename Container, typename Compare>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
-- 
2.43.0


From 75736c20a35656a67968f85b204348967b9c28f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:39 +0000
Subject: [PATCH 050/185] fix: fixed::adjacent_difference did not compile for
 non-empty containers

---
 sprout/numeric/fixed/adjacent_difference.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/numeric/fixed/adjacent_difference.hpp b/sprout/numeric/fixed/adjacent_difference.hpp
index 1426e4f..c614581 100644
--- a/sprout/numeric/fixed/adjacent_difference.hpp
+++ b/sprout/numeric/fixed/adjacent_difference.hpp
@@ -70,7 +70,7 @@ namespace sprout {
 				sprout::container_traits<Result>::static_size != 0,
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
-			adjacent_difference_impl_1(
+			adjacent_difference_impl(
 				InputIterator const& first, InputIterator const& last, Result const& result,
 				typename sprout::container_traits<Result>::size_type size
 				)
@@ -144,7 +144,7 @@ namespace sprout {
 				sprout::container_traits<Result>::static_size != 0,
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
-			adjacent_difference_impl_1(
+			adjacent_difference_impl(
 				InputIterator const& first, InputIterator const& last, Result const& result, BinaryOperation binary_op,
 				typename sprout::container_traits<Result>::size_type size
 				)
-- 
2.43.0


From 5c0b4a82e909c8564f10788841161db324398a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:49 +0000
Subject: [PATCH 051/185] fix: exclusive_scan and transform_exclusive_scan
 wrote to the output of an empty range

---
 sprout/numeric/cxx14/exclusive_scan.hpp           | 6 +++---
 sprout/numeric/cxx14/transform_exclusive_scan.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sprout/numeric/cxx14/exclusive_scan.hpp b/sprout/numeric/cxx14/exclusive_scan.hpp
index 0856eb1..7a36e36 100644
--- a/sprout/numeric/cxx14/exclusive_scan.hpp
+++ b/sprout/numeric/cxx14/exclusive_scan.hpp
@@ -24,11 +24,11 @@ namespace sprout {
 	inline SPROUT_CXX14_CONSTEXPR OutputIterator
 	exclusive_scan(InputIterator first, InputIterator last, OutputIterator result, T init, BinaryOperation binary_op) {
 		typedef typename std::iterator_traits<InputIterator>::value_type value_type;
-		value_type sum = sprout::move(init);
-		*result = sum;
 		if (first == last) {
-			return ++result;
+			return result;
 		}
+		value_type sum = sprout::move(init);
+		*result = sum;
 		value_type temp = *first;
 		while (++first != last) {
 			sum = binary_op(sum, temp);
diff --git a/sprout/numeric/cxx14/transform_exclusive_scan.hpp b/sprout/numeric/cxx14/transform_exclusive_scan.hpp
index 14d9c10..fc205a8 100644
--- a/sprout/numeric/cxx14/transform_exclusive_scan.hpp
+++ b/sprout/numeric/cxx14/transform_exclusive_scan.hpp
@@ -24,11 +24,11 @@ namespace sprout {
 	inline SPROUT_CXX14_CONSTEXPR OutputIterator
 	transform_exclusive_scan(InputIterator first, InputIterator last, OutputIterator result, T init, BinaryOperation binary_op, UnaryOperation unary_op) {
 		typedef typename std::iterator_traits<InputIterator>::value_type value_type;
-		value_type sum = sprout::move(init);
-		*result = sum;
 		if (first == last) {
-			return ++result;
+			return result;
 		}
+		value_type sum = sprout::move(init);
+		*result = sum;
 		value_type temp = unary_op(*first);
 		while (++first != last) {
 			sum = binary_op(sum, temp);
-- 
2.43.0


From 2f7f6f30d71022a9b79536385ddf57ffdb054093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:11 +0000
Subject: [PATCH 052/185] fix: inner_product did not compile

---
 sprout/numeric/inner_product.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/numeric/inner_product.hpp b/sprout/numeric/inner_product.hpp
index c29b198..e8cbce7 100644
--- a/sprout/numeric/inner_product.hpp
+++ b/sprout/numeric/inner_product.hpp
@@ -29,7 +29,7 @@ namespace sprout {
 			typename std::iterator_traits<RandomAccessIterator1>::difference_type pivot, T init
 			)
 		{
-			return pivot == 0 ? binary_op(init, binary_op2(*first1, *first2))
+			return pivot == 0 ? binary_op1(init, binary_op2(*first1, *first2))
 				: sprout::detail::inner_product_ra(
 					sprout::next(first1, pivot), last1, sprout::next(first2, pivot), binary_op1, binary_op2,
 					(sprout::distance(first1, last1) - pivot) / 2,
@@ -109,7 +109,7 @@ namespace sprout {
 			)
 		{
 			typedef sprout::tuples::tuple<InputIterator1, InputIterator2, T> type;
-			return sprout::tuples::get<2>(sprout::detail::inner_product_impl(type(first1, first2, init), last1, binary_op1, binary_op2));
+			return sprout::tuples::get<2>(sprout::detail::inner_product_impl(type(first1, first2, init), last1, binary_op1, binary_op2, 1));
 		}
 	}	// namespace detail
 
-- 
2.43.0


From b265ce9b4b280fa27b4e0e9f744af04e6608d445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:25 +0000
Subject: [PATCH 053/185] fix: fit::partial_sum and fit::adjacent_difference
 with an operation did not compile

---
 sprout/numeric/fit/adjacent_difference.hpp | 2 +-
 sprout/numeric/fit/partial_sum.hpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/numeric/fit/adjacent_difference.hpp b/sprout/numeric/fit/adjacent_difference.hpp
index 22c0cb3..ff52387 100644
--- a/sprout/numeric/fit/adjacent_difference.hpp
+++ b/sprout/numeric/fit/adjacent_difference.hpp
@@ -56,7 +56,7 @@ namespace sprout {
 				return sprout::sub_copy(
 					sprout::get_internal(sprout::fixed::adjacent_difference(first, last, result, binary_op)),
 					offset,
-					offset + NS_SSCRISK_CEL_OR_SPROUT::min(sprout::distance(first, last), sprout::size(result))
+					offset + sprout::fit_size(result, sprout::distance(first, last))
 					);
 			}
 		}	// namespace detail
diff --git a/sprout/numeric/fit/partial_sum.hpp b/sprout/numeric/fit/partial_sum.hpp
index bebe6e0..46cd572 100644
--- a/sprout/numeric/fit/partial_sum.hpp
+++ b/sprout/numeric/fit/partial_sum.hpp
@@ -56,7 +56,7 @@ namespace sprout {
 				return sprout::sub_copy(
 					sprout::get_internal(sprout::fixed::partial_sum(first, last, result, binary_op)),
 					offset,
-					offset + NS_SSCRISK_CEL_OR_SPROUT::min(sprout::distance(first, last), sprout::size(result))
+					offset + sprout::fit_size(result, sprout::distance(first, last))
 					);
 			}
 		}	// namespace detail
-- 
2.43.0


From 42f4216f408d90570e0c25a1138dc6bc3b2af7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:52 +0000
Subject: [PATCH 054/185] fix: fixed::exclusive_scan and
 fixed::transform_exclusive_scan wrote the initial value for an empty range

---
 sprout/numeric/fixed/exclusive_scan.hpp        | 18 ++++++++++++------
 .../numeric/fixed/transform_exclusive_scan.hpp |  9 ++++++---
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/sprout/numeric/fixed/exclusive_scan.hpp b/sprout/numeric/fixed/exclusive_scan.hpp
index adb2cb4..671317d 100644
--- a/sprout/numeric/fixed/exclusive_scan.hpp
+++ b/sprout/numeric/fixed/exclusive_scan.hpp
@@ -71,11 +71,14 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			exclusive_scan_impl(
-				InputIterator const&, InputIterator const&, Result const& result, T init,
+				InputIterator const& first, InputIterator const& last, Result const& result, T init,
 				typename sprout::container_traits<Result>::size_type
 				)
 			{
-				return sprout::detail::container_complate(result, init);
+				return first != last
+					? sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
+					;
 			}
 			template<typename InputIterator, typename Result, typename T>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
@@ -89,7 +92,7 @@ namespace sprout {
 			{
 				return first != last
 					? exclusive_scan_impl_1(sprout::next(first), last, result, size, init, *first)
-					: sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
 					;
 			}
 		}	// namespace detail
@@ -159,11 +162,14 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			exclusive_scan_impl(
-				InputIterator const&, InputIterator const&, Result const& result, T init, BinaryOperation,
+				InputIterator const& first, InputIterator const& last, Result const& result, T init, BinaryOperation,
 				typename sprout::container_traits<Result>::size_type
 				)
 			{
-				return sprout::detail::container_complate(result, init);
+				return first != last
+					? sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
+					;
 			}
 			template<typename InputIterator, typename Result, typename T, typename BinaryOperation>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
@@ -177,7 +183,7 @@ namespace sprout {
 			{
 				return first != last
 					? exclusive_scan_impl_1(sprout::next(first), last, result, binary_op, size, init, *first)
-					: sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
 					;
 			}
 		}	// namespace detail
diff --git a/sprout/numeric/fixed/transform_exclusive_scan.hpp b/sprout/numeric/fixed/transform_exclusive_scan.hpp
index dc009c2..ec40231 100644
--- a/sprout/numeric/fixed/transform_exclusive_scan.hpp
+++ b/sprout/numeric/fixed/transform_exclusive_scan.hpp
@@ -71,11 +71,14 @@ namespace sprout {
 				typename sprout::fixed::results::algorithm<Result>::type
 			>::type
 			transform_exclusive_scan_impl(
-				InputIterator const&, InputIterator const&, Result const& result, T init, BinaryOperation, UnaryOperation,
+				InputIterator const& first, InputIterator const& last, Result const& result, T init, BinaryOperation, UnaryOperation,
 				typename sprout::container_traits<Result>::size_type
 				)
 			{
-				return sprout::detail::container_complate(result, init);
+				return first != last
+					? sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
+					;
 			}
 			template<typename InputIterator, typename Result, typename T, typename BinaryOperation, typename UnaryOperation>
 			inline SPROUT_CONSTEXPR typename std::enable_if<
@@ -89,7 +92,7 @@ namespace sprout {
 			{
 				return first != last
 					? transform_exclusive_scan_impl_1(sprout::next(first), last, result, binary_op, unary_op, size, init, unary_op(*first))
-					: sprout::detail::container_complate(result, init)
+					: sprout::detail::container_complate(result)
 					;
 			}
 		}	// namespace detail
-- 
2.43.0


From e6708d32e7a221878aef015636ce40052b530606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:52 +0000
Subject: [PATCH 055/185] fix: fixed::fft and fixed::ifft used the conjugate of
 the transform of sprout::fft and dft

---
 sprout/numeric/fft/coefficients.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/numeric/fft/coefficients.hpp b/sprout/numeric/fft/coefficients.hpp
index 7aaf90f..b4580ed 100644
--- a/sprout/numeric/fft/coefficients.hpp
+++ b/sprout/numeric/fft/coefficients.hpp
@@ -53,8 +53,8 @@ namespace sprout {
 			return make_fft_coefficients_impl(
 				make_fft_coefficients_loop<value_type, N - 1, Size>(inverse),
 				{ 
-					sprout::cos((inverse?-1:1)*sprout::math::two_pi<value_type>() / (1 << Size >> (N - 1))),
-					sprout::sin((inverse?-1:1)*sprout::math::two_pi<value_type>() / (1 << Size >> (N - 1)))
+					sprout::cos((inverse?1:-1)*sprout::math::two_pi<value_type>() / (1 << Size >> (N - 1))),
+					sprout::sin((inverse?1:-1)*sprout::math::two_pi<value_type>() / (1 << Size >> (N - 1)))
 				},
 				sprout::make_index_tuple<1 << (N - 1)>()
 				);
-- 
2.43.0


From 4cbcb34247f62b5e78380c9d55a2de348f15eede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:52 +0000
Subject: [PATCH 056/185] fix: fixed::ifft did not compile

---
 sprout/numeric/fft/fixed/ifft.hpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/sprout/numeric/fft/fixed/ifft.hpp b/sprout/numeric/fft/fixed/ifft.hpp
index e3f0872..75be5c3 100644
--- a/sprout/numeric/fft/fixed/ifft.hpp
+++ b/sprout/numeric/fft/fixed/ifft.hpp
@@ -40,22 +40,18 @@ namespace sprout {
 		// ifft
 		// Algorithm: Stockham decimation-in-time
 		//
-		template<
-			typename ForwardIterator, typename Result,
-			typename sprout::container_traits<Result>::size_type Size
-				= sprout::container_traits<Result>::static_size
-		>
+		template<typename Container, typename Result>
 		inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
-		ifft(ForwardIterator first, ForwardIterator last, Result const& result) {
+		ifft(Container const& cont, Result const& result) {
 			return sprout::fixed::detail::make_ifft_result(
-				sprout::fixed::detail::ifft(sprout::fixed::detail::make_input<Size>(first, last)), result
+				sprout::fixed::detail::ifft(sprout::fixed::detail::make_input<sprout::container_traits<Result>::static_size>(cont)), result
 			);
 		}
 
-		template<typename Result, typename ForwardIterator>
+		template<typename Result, typename Container>
 		inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
-		ifft(ForwardIterator first, ForwardIterator last) {
-			return sprout::fixed::ifft(first, last, sprout::pit<Result>());
+		ifft(Container const& cont) {
+			return sprout::fixed::ifft(cont, sprout::pit<Result>());
 		}
 	}	// namespace fixed
 
-- 
2.43.0


From 4c1db6717a79b2dca9a61e008c710a45a31c2b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:02 +0000
Subject: [PATCH 057/185] fix: issubnormal, isnormal and fpclassify judged
 float and long double by the smallest normal double

---
 sprout/math/issubnormal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/math/issubnormal.hpp b/sprout/math/issubnormal.hpp
index 5cf7230..2f60a1e 100644
--- a/sprout/math/issubnormal.hpp
+++ b/sprout/math/issubnormal.hpp
@@ -28,8 +28,8 @@ namespace sprout {
 			inline SPROUT_CONSTEXPR bool
 			issubnormal_or_zero(FloatType x) {
 				return x > 0
-					? x < sprout::numeric_limits<double>::min()
-					: x > -sprout::numeric_limits<double>::min()
+					? x < sprout::numeric_limits<FloatType>::min()
+					: x > -sprout::numeric_limits<FloatType>::min()
 					;
 			}
 		}	// namespace detail
-- 
2.43.0


From 0c44afa293ad0ce72261d33f18021daebc6a1335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:00 +0000
Subject: [PATCH 058/185] fix: without builtins ceil and floor took values
 close to an integer, and tiny ones, for the integer

---
 sprout/math/ceil.hpp  | 2 +-
 sprout/math/floor.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/math/ceil.hpp b/sprout/math/ceil.hpp
index a72c3c2..b5785dc 100644
--- a/sprout/math/ceil.hpp
+++ b/sprout/math/ceil.hpp
@@ -40,7 +40,7 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			ceil_impl_1(T x, T x0) {
-				return sprout::math::equal_to(x, x0) ? x0
+				return x == x0 ? x0
 					: x0 + T(1)
 					;
 			}
diff --git a/sprout/math/floor.hpp b/sprout/math/floor.hpp
index b018752..5a4a150 100644
--- a/sprout/math/floor.hpp
+++ b/sprout/math/floor.hpp
@@ -40,7 +40,7 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			floor_impl_1(T x, T x0) {
-				return sprout::math::equal_to(x, x0) ? x0
+				return x == x0 ? x0
 					: x0 - T(1)
 					;
 			}
-- 
2.43.0


From 11c0a364012ed0a7bdc5dce0584cbd62fe8d125a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:00 +0000
Subject: [PATCH 059/185] fix: without builtins islessequal was isless

---
 sprout/math/islessequal.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/math/islessequal.hpp b/sprout/math/islessequal.hpp
index 0f9896a..8e0d6d9 100644
--- a/sprout/math/islessequal.hpp
+++ b/sprout/math/islessequal.hpp
@@ -39,7 +39,7 @@ namespace sprout {
 #if SPROUT_USE_BUILTIN_CMATH_FUNCTION
 				sprout::math::detail::builtin_islessequal(x, y)
 #else
-				!sprout::math::isnan(x) && !sprout::math::isnan(y) && (x < y)
+				!sprout::math::isnan(x) && !sprout::math::isnan(y) && (x <= y)
 #endif
 				;
 		}
-- 
2.43.0


From 9a47f52260e6612f693f79e64c570d64efa5e79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:00 +0000
Subject: [PATCH 060/185] fix: rem_quo overflowed the quotient

---
 sprout/math/rem_quo.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/math/rem_quo.hpp b/sprout/math/rem_quo.hpp
index 4b8126a..1cd5815 100644
--- a/sprout/math/rem_quo.hpp
+++ b/sprout/math/rem_quo.hpp
@@ -54,8 +54,8 @@ namespace sprout {
 			rem_quo_impl_5(T x, T y, int k, R iquo, T x1, T y1, T z, int iscy, int idiff, int i) {
 				return i != idiff
 					? z >= 0
-						? sprout::math::detail::rem_quo_impl_5(x, y, k, iquo + iquo + 2, z + z, y1, z + z - y1, iscy, idiff, i + 1)
-						: sprout::math::detail::rem_quo_impl_5(x, y, k, iquo + iquo, x1 + x1, y1, x1 + x1 - y1, iscy, idiff, i + 1)
+						? sprout::math::detail::rem_quo_impl_5(x, y, k, (iquo & 0x7) * 2 + 2, z + z, y1, z + z - y1, iscy, idiff, i + 1)
+						: sprout::math::detail::rem_quo_impl_5(x, y, k, (iquo & 0x7) * 2, x1 + x1, y1, x1 + x1 - y1, iscy, idiff, i + 1)
 					: sprout::math::detail::rem_quo_impl_6(x, y, k, iquo, sprout::math::scalbn(x1, iscy))
 					;
 			}
-- 
2.43.0


From a268d60c21fe42d7d2c11ad18b849092248b6f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:00 +0000
Subject: [PATCH 061/185] fix: the significand of values in the top binade was
 0

---
 sprout/math/float2_sig_exp.hpp     | 2 +-
 sprout/math/float2_significand.hpp | 2 +-
 sprout/math/float_sig_exp.hpp      | 2 +-
 sprout/math/float_significand.hpp  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/math/float2_sig_exp.hpp b/sprout/math/float2_sig_exp.hpp
index ccb3e85..297dda5 100644
--- a/sprout/math/float2_sig_exp.hpp
+++ b/sprout/math/float2_sig_exp.hpp
@@ -25,7 +25,7 @@ namespace sprout {
 			inline SPROUT_CONSTEXPR sprout::pair<T, int>
 			float2_sig_exp_impl(T x, int exp) {
 				typedef sprout::pair<T, int> type;
-				return type(x / sprout::detail::pow_n(T(2), exp), exp);
+				return type(x / sprout::detail::pow_n(T(2), exp - 1) / 2, exp);
 			}
 		}	// namespace detail
 		//
diff --git a/sprout/math/float2_significand.hpp b/sprout/math/float2_significand.hpp
index c3098eb..815534c 100644
--- a/sprout/math/float2_significand.hpp
+++ b/sprout/math/float2_significand.hpp
@@ -32,7 +32,7 @@ namespace sprout {
 				: x == sprout::numeric_limits<FloatType>::infinity() ? sprout::numeric_limits<FloatType>::infinity()
 				: x == -sprout::numeric_limits<FloatType>::infinity() ? -sprout::numeric_limits<FloatType>::infinity()
 				: x == 0 ? x
-				: x / sprout::detail::pow_n(FloatType(2), sprout::float2_exponent(x))
+				: x / sprout::detail::pow_n(FloatType(2), sprout::float2_exponent(x) - 1) / 2
 				;
 		}
 		template<
diff --git a/sprout/math/float_sig_exp.hpp b/sprout/math/float_sig_exp.hpp
index 4f42b5a..4a5c1d1 100644
--- a/sprout/math/float_sig_exp.hpp
+++ b/sprout/math/float_sig_exp.hpp
@@ -25,7 +25,7 @@ namespace sprout {
 			inline SPROUT_CONSTEXPR sprout::pair<T, int>
 			float_sig_exp_impl(T x, int exp) {
 				typedef sprout::pair<T, int> type;
-				return type(x / sprout::detail::pow_n(T(sprout::numeric_limits<T>::radix), exp), exp);
+				return type(x / sprout::detail::pow_n(T(sprout::numeric_limits<T>::radix), exp - 1) / sprout::numeric_limits<T>::radix, exp);
 			}
 		}	// namespace detail
 		//
diff --git a/sprout/math/float_significand.hpp b/sprout/math/float_significand.hpp
index 0d7f7ff..e5ccc3c 100644
--- a/sprout/math/float_significand.hpp
+++ b/sprout/math/float_significand.hpp
@@ -32,7 +32,7 @@ namespace sprout {
 				: x == sprout::numeric_limits<FloatType>::infinity() ? sprout::numeric_limits<FloatType>::infinity()
 				: x == -sprout::numeric_limits<FloatType>::infinity() ? -sprout::numeric_limits<FloatType>::infinity()
 				: x == 0 ? x
-				: x / sprout::detail::pow_n(FloatType(sprout::numeric_limits<FloatType>::radix), sprout::float_exponent(x))
+				: x / sprout::detail::pow_n(FloatType(sprout::numeric_limits<FloatType>::radix), sprout::float_exponent(x) - 1) / sprout::numeric_limits<FloatType>::radix
 				;
 		}
 		template<
-- 
2.43.0


From 8e2a369fe0ccb4f3305fc8e8a96829bcf92e84a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:29 +0000
Subject: [PATCH 062/185] fix: without builtins logb did not end for values
 just below a power of two, nor for subnormal values

---
 sprout/math/logb.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/sprout/math/logb.hpp b/sprout/math/logb.hpp
index 9459ea9..de5ac50 100644
--- a/sprout/math/logb.hpp
+++ b/sprout/math/logb.hpp
@@ -44,7 +44,7 @@ namespace sprout {
 			inline SPROUT_CONSTEXPR T
 			logb_impl_3_neg_lo(T x, T x0, T base, T exp) {
 				return base < 1 ? sprout::math::detail::logb_impl_3_neg_lo(
-						x, x0 * sprout::numeric_limits<T>::radix, x / (x0 / sprout::numeric_limits<T>::radix), exp - 1
+						x, x0 / sprout::numeric_limits<T>::radix, x / (x0 / sprout::numeric_limits<T>::radix), exp - 1
 						)
 					: exp
 					;
@@ -53,7 +53,7 @@ namespace sprout {
 			inline SPROUT_CONSTEXPR T
 			logb_impl_3_neg_hi(T x, T x0, T base, T exp) {
 				return !(base < sprout::numeric_limits<T>::radix) ? sprout::math::detail::logb_impl_3_neg_hi(
-						x, x0 / sprout::numeric_limits<T>::radix, x / (x0 * sprout::numeric_limits<T>::radix), exp + 1
+						x, x0 * sprout::numeric_limits<T>::radix, x / (x0 * sprout::numeric_limits<T>::radix), exp + 1
 						)
 					: exp
 					;
@@ -62,7 +62,7 @@ namespace sprout {
 			inline SPROUT_CONSTEXPR T
 			logb_impl_3_pos_lo(T x, T x0, T base, T exp) {
 				return base < 1 ? sprout::math::detail::logb_impl_3_pos_lo(
-						x, x0 * sprout::numeric_limits<T>::radix, x / (x0 / sprout::numeric_limits<T>::radix), exp - 1
+						x, x0 / sprout::numeric_limits<T>::radix, x / (x0 / sprout::numeric_limits<T>::radix), exp - 1
 						)
 					: exp
 					;
@@ -71,7 +71,7 @@ namespace sprout {
 			inline SPROUT_CONSTEXPR T
 			logb_impl_3_pos_hi(T x, T x0, T base, T exp) {
 				return !(base < sprout::numeric_limits<T>::radix) ? sprout::math::detail::logb_impl_3_pos_hi(
-						x, x0 / sprout::numeric_limits<T>::radix, x / (x0 * sprout::numeric_limits<T>::radix), exp + 1
+						x, x0 * sprout::numeric_limits<T>::radix, x / (x0 * sprout::numeric_limits<T>::radix), exp + 1
 						)
 					: exp
 					;
@@ -81,17 +81,17 @@ namespace sprout {
 			logb_impl_3(T x, T x0, T base, T exp) {
 				return x < 1
 					? base < 1 ? sprout::math::detail::logb_impl_3_neg_lo(
-							x, x0 * sprout::numeric_limits<T>::radix, x / (x0 / sprout::numeric_limits<T>::radix), exp - 1
+							x, x0 / sprout::numeric_limits<T>::radix, x / (x0 / sprout::numeric_limits<T>::radix), exp - 1
 							)
 						: !(base < sprout::numeric_limits<T>::radix) ? sprout::math::detail::logb_impl_3_neg_hi(
-								x, x0 / sprout::numeric_limits<T>::radix, x / (x0 * sprout::numeric_limits<T>::radix), exp + 1
+								x, x0 * sprout::numeric_limits<T>::radix, x / (x0 * sprout::numeric_limits<T>::radix), exp + 1
 								)
 						: exp
 					: base < 1 ? sprout::math::detail::logb_impl_3_pos_lo(
-							x, x0 * sprout::numeric_limits<T>::radix, x / (x0 / sprout::numeric_limits<T>::radix), exp - 1
+							x, x0 / sprout::numeric_limits<T>::radix, x / (x0 / sprout::numeric_limits<T>::radix), exp - 1
 							)
 						: !(base < sprout::numeric_limits<T>::radix) ? sprout::math::detail::logb_impl_3_pos_hi(
-								x, x0 / sprout::numeric_limits<T>::radix, x / (x0 * sprout::numeric_limits<T>::radix), exp + 1
+								x, x0 * sprout::numeric_limits<T>::radix, x / (x0 * sprout::numeric_limits<T>::radix), exp + 1
 								)
 						: exp
 						;
@@ -111,7 +111,9 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			logb_impl(T x) {
-				return x < 0 ? sprout::math::detail::logb_impl_1(-x, sprout::math::trunc(sprout::math::log_a(T(sprout::numeric_limits<T>::radix), -x)))
+				return x < 0 ? sprout::math::detail::logb_impl(-x)
+					: x < sprout::numeric_limits<T>::min()
+						? sprout::math::detail::logb_impl(x / sprout::numeric_limits<T>::epsilon()) + T(1 - sprout::numeric_limits<T>::digits)
 					: sprout::math::detail::logb_impl_1(x, sprout::math::trunc(sprout::math::log_a(T(sprout::numeric_limits<T>::radix), x)))
 					;
 			}
-- 
2.43.0


From 4d63de31913973c5c248734b555b82bb4f0a5a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:37 +0000
Subject: [PATCH 063/185] fix: without builtins iceil and ifloor took values
 close to an integer for the integer

---
 sprout/math/iceil.hpp  | 2 +-
 sprout/math/ifloor.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/math/iceil.hpp b/sprout/math/iceil.hpp
index 86def99..fefc48e 100644
--- a/sprout/math/iceil.hpp
+++ b/sprout/math/iceil.hpp
@@ -54,7 +54,7 @@ namespace sprout {
 			template<typename To, typename FloatType>
 			inline SPROUT_CONSTEXPR To
 			iceil_impl(FloatType x, To x0) {
-				return sprout::math::less_equal(x, x0) ? x0
+				return x <= x0 ? x0
 					: x0 + 1
 					;
 			}
diff --git a/sprout/math/ifloor.hpp b/sprout/math/ifloor.hpp
index a664fc8..570005f 100644
--- a/sprout/math/ifloor.hpp
+++ b/sprout/math/ifloor.hpp
@@ -54,7 +54,7 @@ namespace sprout {
 			template<typename To, typename FloatType>
 			inline SPROUT_CONSTEXPR To
 			ifloor_impl(FloatType x, To x0) {
-				return sprout::math::greater_equal(x, x0) ? x0
+				return x >= x0 ? x0
 					: x0 - 1
 					;
 			}
-- 
2.43.0


From 26bcd193bfa1be5f6e43f6b7183bf5c458691ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:38 +0000
Subject: [PATCH 064/185] fix: fdim(inf, inf) was inf

---
 sprout/math/fdim.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/math/fdim.hpp b/sprout/math/fdim.hpp
index 29cb58a..48dfff9 100644
--- a/sprout/math/fdim.hpp
+++ b/sprout/math/fdim.hpp
@@ -45,9 +45,9 @@ namespace sprout {
 		fdim(FloatType x, FloatType y) {
 			return sprout::math::isnan(y) ? y
 				: sprout::math::isnan(x) ? x
+				: y == sprout::numeric_limits<FloatType>::infinity() ? FloatType(0)
 				: x == sprout::numeric_limits<FloatType>::infinity() ? sprout::numeric_limits<FloatType>::infinity()
 				: x == -sprout::numeric_limits<FloatType>::infinity() ? FloatType(0)
-				: y == sprout::numeric_limits<FloatType>::infinity() ? FloatType(0)
 				: y == -sprout::numeric_limits<FloatType>::infinity() ? sprout::numeric_limits<FloatType>::infinity()
 #if SPROUT_USE_BUILTIN_CMATH_FUNCTION
 				: sprout::math::detail::builtin_fdim(x, y)
-- 
2.43.0


From 71681f9e9c1b95e855c242395db1051d0baec0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:38 +0000
Subject: [PATCH 065/185] fix: without builtins asinh lost its accuracy for
 negative values of large magnitude

---
 sprout/math/asinh.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sprout/math/asinh.hpp b/sprout/math/asinh.hpp
index 1a5f4fb..c30e3e1 100644
--- a/sprout/math/asinh.hpp
+++ b/sprout/math/asinh.hpp
@@ -39,7 +39,9 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			asinh_impl(T x) {
-				return sprout::math::log(x + sprout::math::sqrt(x * x + 1));
+				return x < 0 ? -sprout::math::log(-x + sprout::math::sqrt(x * x + 1))
+					: sprout::math::log(x + sprout::math::sqrt(x * x + 1))
+					;
 			}
 		}	// namespace detail
 		//
-- 
2.43.0


From 89111631dc3693f46f962f168f77868e5ca1eeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:48 +0000
Subject: [PATCH 066/185] fix: assigning a rational recursed without end

---
 sprout/rational/rational.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sprout/rational/rational.hpp b/sprout/rational/rational.hpp
index 8873073..0cc2cd9 100644
--- a/sprout/rational/rational.hpp
+++ b/sprout/rational/rational.hpp
@@ -97,17 +97,15 @@ namespace sprout {
 		{}
 
 		SPROUT_CXX14_CONSTEXPR rational& operator=(rational const& rhs) SPROUT_NOEXCEPT {
-			rational temp(rhs);
-			sprout::swap(temp, *this);
+			num_ = rhs.num_;
+			den_ = rhs.den_;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR rational& operator=(param_type n) SPROUT_NOEXCEPT {
 			return assign(n, 1);
 		}
 		SPROUT_CXX14_CONSTEXPR rational& assign(param_type n, param_type d) {
-			rational temp(n, d);
-			sprout::swap(temp, *this);
-			return *this;
+			return *this = rational(n, d);
 		}
 
 		SPROUT_CONSTEXPR IntType numerator() const SPROUT_NOEXCEPT {
-- 
2.43.0


From ea1e9035f3fa935b433d637b1d5b2292942e2926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:48 +0000
Subject: [PATCH 067/185] fix: the compound assignments of a rational with
 itself gave wrong values or division by zero

---
 sprout/rational/rational.hpp | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/sprout/rational/rational.hpp b/sprout/rational/rational.hpp
index 0cc2cd9..c7313b3 100644
--- a/sprout/rational/rational.hpp
+++ b/sprout/rational/rational.hpp
@@ -116,28 +116,34 @@ namespace sprout {
 		}
 
 		SPROUT_CXX14_CONSTEXPR rational& operator+=(rational const& rhs) {
-			IntType g = sprout::gcd(den_, rhs.den_);
+			IntType r_num = rhs.num_;
+			IntType r_den = rhs.den_;
+			IntType g = sprout::gcd(den_, r_den);
 			den_ /= g;
-			num_ = num_ * (rhs.den_ / g) + rhs.num_ * den_;
+			num_ = num_ * (r_den / g) + r_num * den_;
 			g = sprout::gcd(num_, g);
 			num_ /= g;
-			den_ *= rhs.den_ / g;
+			den_ *= r_den / g;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR rational& operator-=(rational const& rhs) {
-			IntType g = sprout::gcd(den_, rhs.den_);
+			IntType r_num = rhs.num_;
+			IntType r_den = rhs.den_;
+			IntType g = sprout::gcd(den_, r_den);
 			den_ /= g;
-			num_ = num_ * (rhs.den_ / g) - rhs.num_ * den_;
+			num_ = num_ * (r_den / g) - r_num * den_;
 			g = sprout::gcd(num_, g);
 			num_ /= g;
-			den_ *= rhs.den_ / g;
+			den_ *= r_den / g;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR rational& operator*=(rational const& rhs) {
-			IntType gcd1 = sprout::gcd(num_, rhs.den_);
-			IntType gcd2 = sprout::gcd(rhs.num_, den_);
-			num_ =(num_ / gcd1) * (rhs.num_ / gcd2);
-			den_ =(den_ / gcd2) * (rhs.den_ / gcd1);
+			IntType r_num = rhs.num_;
+			IntType r_den = rhs.den_;
+			IntType gcd1 = sprout::gcd(num_, r_den);
+			IntType gcd2 = sprout::gcd(r_num, den_);
+			num_ =(num_ / gcd1) * (r_num / gcd2);
+			den_ =(den_ / gcd2) * (r_den / gcd1);
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR rational& operator/=(rational const& rhs) {
@@ -147,10 +153,12 @@ namespace sprout {
 			if (num_ == IntType(0)) {
 				return *this;
 			}
-			IntType gcd1 = sprout::gcd(num_, rhs.num_);
-			IntType gcd2 = sprout::gcd(rhs.den_, den_);
-			num_ =(num_ / gcd1) * (rhs.den_ / gcd2);
-			den_ =(den_ / gcd2) * (rhs.num_ / gcd1);
+			IntType r_num = rhs.num_;
+			IntType r_den = rhs.den_;
+			IntType gcd1 = sprout::gcd(num_, r_num);
+			IntType gcd2 = sprout::gcd(r_den, den_);
+			num_ =(num_ / gcd1) * (r_den / gcd2);
+			den_ =(den_ / gcd2) * (r_num / gcd1);
 			if (den_ < IntType(0)) {
 				num_ = -num_;
 				den_ = -den_;
-- 
2.43.0


From d40d4ae11155ed1ef8dce871893b755a58ae87f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:48 +0000
Subject: [PATCH 068/185] fix: comparing a negative rational with an integer
 swapped quotient and remainder

---
 sprout/rational/comparison.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/rational/comparison.hpp b/sprout/rational/comparison.hpp
index 2518640..d406aa7 100644
--- a/sprout/rational/comparison.hpp
+++ b/sprout/rational/comparison.hpp
@@ -123,7 +123,7 @@ namespace sprout {
 		{
 			return r < IntType(0) ? sprout::detail::rational_less_impl(
 					lhs, rhs,
-					r + lhs.denominator(), q - 1
+					q - 1, r + lhs.denominator()
 					)
 				: q < rhs
 				;
-- 
2.43.0


From 97ec6bb178f22bb292ffc5ad77afb3404d81fc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:48 +0000
Subject: [PATCH 069/185] fix: the Bernoulli number B28 was wrong

---
 sprout/math/bernoulli.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/math/bernoulli.hpp b/sprout/math/bernoulli.hpp
index fe908e5..48cd8e2 100644
--- a/sprout/math/bernoulli.hpp
+++ b/sprout/math/bernoulli.hpp
@@ -33,7 +33,7 @@ namespace sprout {
 				854513.F / 138, \
 				-236364091.F / 2730, \
 				8553103.F / 6, \
-				-236364091.F / 870, \
+				-23749461029.F / 870, \
 				8615841276005.F / 14322, \
 				-7709321041217.F / 510, \
 				2577687858367.F / 6, \
@@ -69,7 +69,7 @@ namespace sprout {
 				854513. / 138, \
 				-236364091. / 2730, \
 				8553103. / 6, \
-				-236364091. / 870, \
+				-23749461029. / 870, \
 				8615841276005. / 14322, \
 				-7709321041217. / 510, \
 				2577687858367. / 6, \
@@ -123,7 +123,7 @@ namespace sprout {
 				854513.L / 138, \
 				-236364091.L / 2730, \
 				8553103.L / 6, \
-				-236364091.L / 870, \
+				-23749461029.L / 870, \
 				8615841276005.L / 14322, \
 				-7709321041217.L / 510, \
 				2577687858367.L / 6, \
-- 
2.43.0


From 5ae11a45d85f754d69cac161101e4674ab116287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:28 +0000
Subject: [PATCH 070/185] fix: cend of a complex was its cbegin

---
 sprout/complex/complex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/complex/complex.hpp b/sprout/complex/complex.hpp
index 01a9bc6..dea691c 100644
--- a/sprout/complex/complex.hpp
+++ b/sprout/complex/complex.hpp
@@ -167,7 +167,7 @@ namespace sprout {
 			return elems_.cbegin();
 		}
 		SPROUT_CONSTEXPR const_iterator cend() const SPROUT_NOEXCEPT {
-			return elems_.cbegin();
+			return elems_.cend();
 		}
 		SPROUT_CONSTEXPR const_reverse_iterator crbegin() const SPROUT_NOEXCEPT {
 			return elems_.crbegin();
-- 
2.43.0


From 539a83e1133306cc86cccdfbcdd1bc1870f986d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:28 +0000
Subject: [PATCH 071/185] fix: the complex square root of -inf + iy was 0

---
 sprout/complex/sqrt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/complex/sqrt.hpp b/sprout/complex/sqrt.hpp
index 06b2e85..537713a 100644
--- a/sprout/complex/sqrt.hpp
+++ b/sprout/complex/sqrt.hpp
@@ -74,7 +74,7 @@ namespace sprout {
 			: x.real() == sprout::numeric_limits<T>::infinity()
 				? type(sprout::numeric_limits<T>::infinity(), (x.imag() == 0 ? x.imag() : sprout::math::copysign(T(0), x.imag())))
 			: x.real() == -sprout::numeric_limits<T>::infinity()
-				? type(T(0), sprout::math::copysign(T(0), x.imag()))
+				? type(T(0), sprout::math::copysign(sprout::numeric_limits<T>::infinity(), x.imag()))
 			: x.real() == 0 && x.imag() == 0 ? type(T(0), x.imag())
 			: x.real() == 0 ? sprout::detail::sqrt_impl_1(x, sprout::math::sqrt(sprout::math::abs(x.imag()) / T(2)))
 			: sprout::detail::sqrt_impl_2(x, sprout::math::sqrt(T(2) * (sprout::abs(x) + sprout::math::abs(x.real()))))
-- 
2.43.0


From 33a36f43447eddeb54f1b461b3a43913d9054596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:28 +0000
Subject: [PATCH 072/185] fix: the complex tanh of -inf + iy was 1, and tan of
 x - i inf was wrong accordingly

---
 sprout/complex/tanh.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/complex/tanh.hpp b/sprout/complex/tanh.hpp
index 836fbba..8772e11 100644
--- a/sprout/complex/tanh.hpp
+++ b/sprout/complex/tanh.hpp
@@ -44,11 +44,11 @@ namespace sprout {
 				: x.imag() == 0 ? x
 				: type(x.real(), x.real())
 			: sprout::math::isnan(x.imag())
-				? sprout::math::isinf(x.real()) ? type(T(1), T(0))
+				? sprout::math::isinf(x.real()) ? type(sprout::math::copysign(T(1), x.real()), T(0))
 				: type(x.imag(), x.imag())
 			: sprout::math::isinf(x.real())
-				? sprout::math::isinf(x.imag()) ? type(T(1), T(0))
-				: type(T(1), T(0) * sprout::math::sin(T(2) * x.imag()))
+				? sprout::math::isinf(x.imag()) ? type(sprout::math::copysign(T(1), x.real()), T(0))
+				: type(sprout::math::copysign(T(1), x.real()), T(0) * sprout::math::sin(T(2) * x.imag()))
 			: sprout::math::isinf(x.imag())
 				? type(-sprout::numeric_limits<T>::quiet_NaN(), -sprout::numeric_limits<T>::quiet_NaN())
 			: x.real() == 0 && x.imag() == 0 ? x
-- 
2.43.0


From e280891375c371509a97a7b7f57925e3795f5916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:28 +0000
Subject: [PATCH 073/185] fix: a failed extraction of a complex changed it, or
 read an uninitialized character

---
 sprout/complex/stream_operators.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sprout/complex/stream_operators.hpp b/sprout/complex/stream_operators.hpp
index fc34215..6000ad6 100644
--- a/sprout/complex/stream_operators.hpp
+++ b/sprout/complex/stream_operators.hpp
@@ -17,8 +17,8 @@ namespace sprout {
 	template<typename T, typename Char, typename Traits>
 	inline SPROUT_NON_CONSTEXPR std::basic_istream<Char, Traits>&
 	operator>>(std::basic_istream<Char, Traits>& lhs, sprout::complex<T>& rhs) {
-		T re, im;
-		Char ch;
+		T re = T(), im = T();
+		Char ch = Char();
 		lhs >> ch;
 		if (ch == '(') {
 			lhs >> re >> ch;
@@ -36,8 +36,9 @@ namespace sprout {
 			}
 		} else {
 			lhs.putback(ch);
-			lhs >> re;
-			rhs = re;
+			if (lhs >> re) {
+				rhs = re;
+			}
 		}
 		return lhs;
 	}
-- 
2.43.0


From 3e4f7a098f6aad03c5f5d2e37062bfacea628a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:50 +0000
Subject: [PATCH 074/185] fix: pairs of headers shared an include guard, so
 that including one hid the other (cwctype, polymorphic shift_right,
 quaternion l1, has_comma, valarray trigonometric)

---
 sprout/cwctype.hpp                                   | 6 +++---
 sprout/functional/polymorphic/shift_right.hpp        | 6 +++---
 sprout/functional/polymorphic/shift_right_assign.hpp | 6 +++---
 sprout/math/quaternion/l1.hpp                        | 6 +++---
 sprout/type_traits/has_comma.hpp                     | 6 +++---
 sprout/valarray/trigonometric.hpp                    | 6 +++---
 6 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/sprout/cwctype.hpp b/sprout/cwctype.hpp
index ea5bbcd..19571d5 100644
--- a/sprout/cwctype.hpp
+++ b/sprout/cwctype.hpp
@@ -5,10 +5,10 @@
   Distributed under the Boost Software License, Version 1.0. (See accompanying
   file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
-#ifndef SPROUT_CCTYPE_HPP
-#define SPROUT_CCTYPE_HPP
+#ifndef SPROUT_CWCTYPE_HPP
+#define SPROUT_CWCTYPE_HPP
 
 #include <sprout/config.hpp>
 #include <sprout/ctype/wascii.hpp>
 
-#endif	// #ifndef SPROUT_CCTYPE_HPP
+#endif	// #ifndef SPROUT_CWCTYPE_HPP
diff --git a/sprout/functional/polymorphic/shift_right.hpp b/sprout/functional/polymorphic/shift_right.hpp
index 3a9dd94..3fa6dc4 100644
--- a/sprout/functional/polymorphic/shift_right.hpp
+++ b/sprout/functional/polymorphic/shift_right.hpp
@@ -5,8 +5,8 @@
   Distributed under the Boost Software License, Version 1.0. (See accompanying
   file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
-#ifndef SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_LEFT_HPP
-#define SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_LEFT_HPP
+#ifndef SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_RIGHT_HPP
+#define SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_RIGHT_HPP
 
 #include <sprout/config.hpp>
 #include <sprout/functional/shift_right.hpp>
@@ -22,4 +22,4 @@ namespace sprout {
 	}	// anonymous-namespace
 }	// namespace sprout
 
-#endif	// #ifndef SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_LEFT_HPP
+#endif	// #ifndef SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_RIGHT_HPP
diff --git a/sprout/functional/polymorphic/shift_right_assign.hpp b/sprout/functional/polymorphic/shift_right_assign.hpp
index fb71ef5..812da1d 100644
--- a/sprout/functional/polymorphic/shift_right_assign.hpp
+++ b/sprout/functional/polymorphic/shift_right_assign.hpp
@@ -5,8 +5,8 @@
   Distributed under the Boost Software License, Version 1.0. (See accompanying
   file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
-#ifndef SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_LEFT_ASSIGN_HPP
-#define SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_LEFT_ASSIGN_HPP
+#ifndef SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_RIGHT_ASSIGN_HPP
+#define SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_RIGHT_ASSIGN_HPP
 
 #include <sprout/config.hpp>
 #include <sprout/functional/shift_right_assign.hpp>
@@ -22,4 +22,4 @@ namespace sprout {
 	}	// anonymous-namespace
 }	// namespace sprout
 
-#endif	// #ifndef SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_LEFT_ASSIGN_HPP
+#endif	// #ifndef SPROUT_FUNCTIONAL_POLYMORPHIC_SHIFT_RIGHT_ASSIGN_HPP
diff --git a/sprout/math/quaternion/l1.hpp b/sprout/math/quaternion/l1.hpp
index 910b15d..81033a2 100644
--- a/sprout/math/quaternion/l1.hpp
+++ b/sprout/math/quaternion/l1.hpp
@@ -5,8 +5,8 @@
   Distributed under the Boost Software License, Version 1.0. (See accompanying
   file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
-#ifndef SPROUT_MATH_QUATERNION_SUP_HPP
-#define SPROUT_MATH_QUATERNION_SUP_HPP
+#ifndef SPROUT_MATH_QUATERNION_L1_HPP
+#define SPROUT_MATH_QUATERNION_L1_HPP
 
 #include <sprout/config.hpp>
 #include <sprout/array/array.hpp>
@@ -35,4 +35,4 @@ namespace sprout {
 	using sprout::math::l1;
 }	// namespace sprout
 
-#endif	// #ifndef SPROUT_MATH_QUATERNION_SUP_HPP
+#endif	// #ifndef SPROUT_MATH_QUATERNION_L1_HPP
diff --git a/sprout/type_traits/has_comma.hpp b/sprout/type_traits/has_comma.hpp
index 01a4ece..31dfcb2 100644
--- a/sprout/type_traits/has_comma.hpp
+++ b/sprout/type_traits/has_comma.hpp
@@ -5,8 +5,8 @@
   Distributed under the Boost Software License, Version 1.0. (See accompanying
   file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
-#ifndef SPROUT_TYPE_TRAITS_HAS_PLUS_HPP
-#define SPROUT_TYPE_TRAITS_HAS_PLUS_HPP
+#ifndef SPROUT_TYPE_TRAITS_HAS_COMMA_HPP
+#define SPROUT_TYPE_TRAITS_HAS_COMMA_HPP
 
 #include <sprout/config.hpp>
 #include <sprout/type_traits/dont_care.hpp>
@@ -25,4 +25,4 @@ namespace sprout {
 #endif	// #if SPROUT_USE_VARIABLE_TEMPLATES
 }	// namespace sprout
 
-#endif	// #ifndef SPROUT_TYPE_TRAITS_HAS_PLUS_HPP
+#endif	// #ifndef SPROUT_TYPE_TRAITS_HAS_COMMA_HPP
diff --git a/sprout/valarray/trigonometric.hpp b/sprout/valarray/trigonometric.hpp
index 2af3144..92d5e68 100644
--- a/sprout/valarray/trigonometric.hpp
+++ b/sprout/valarray/trigonometric.hpp
@@ -5,8 +5,8 @@
   Distributed under the Boost Software License, Version 1.0. (See accompanying
   file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
-#ifndef SPROUT_VALARRAY_BITWISE_HPP
-#define SPROUT_VALARRAY_BITWISE_HPP
+#ifndef SPROUT_VALARRAY_TRIGONOMETRIC_HPP
+#define SPROUT_VALARRAY_TRIGONOMETRIC_HPP
 
 #include <utility>
 #include <sprout/workaround/std/cstddef.hpp>
@@ -237,4 +237,4 @@ namespace sprout {
 	}
 }	// namespace sprout
 
-#endif	// #ifndef SPROUT_VALARRAY_BITWISE_HPP
+#endif	// #ifndef SPROUT_VALARRAY_TRIGONOMETRIC_HPP
-- 
2.43.0


From c7a755f2a133c6a430fc88af4ddac3e515f3061f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:50 +0000
Subject: [PATCH 075/185] fix: cend of a quaternion was its cbegin

---
 sprout/math/quaternion/quaternion.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/math/quaternion/quaternion.hpp b/sprout/math/quaternion/quaternion.hpp
index e1988e5..9c52a04 100644
--- a/sprout/math/quaternion/quaternion.hpp
+++ b/sprout/math/quaternion/quaternion.hpp
@@ -281,7 +281,7 @@ namespace sprout {
 				return elems_.cbegin();
 			}
 			SPROUT_CONSTEXPR const_iterator cend() const SPROUT_NOEXCEPT {
-				return elems_.cbegin();
+				return elems_.cend();
 			}
 			SPROUT_CONSTEXPR const_reverse_iterator crbegin() const SPROUT_NOEXCEPT {
 				return elems_.crbegin();
@@ -580,7 +580,7 @@ namespace sprout {
 				return elems_.cbegin(); \
 			} \
 			SPROUT_CONSTEXPR const_iterator cend() const SPROUT_NOEXCEPT { \
-				return elems_.cbegin(); \
+				return elems_.cend(); \
 			} \
 			SPROUT_CONSTEXPR const_reverse_iterator crbegin() const SPROUT_NOEXCEPT { \
 				return elems_.crbegin(); \
-- 
2.43.0


From 6838060c1d3b07e142a865f8022893ad7d595278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:59 +0000
Subject: [PATCH 076/185] fix: has_right_shift_assign was hidden by its include
 guard and tested >> instead of >>=

---
 sprout/type_traits/has_right_shift_assign.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/type_traits/has_right_shift_assign.hpp b/sprout/type_traits/has_right_shift_assign.hpp
index 911cd73..d8b1486 100644
--- a/sprout/type_traits/has_right_shift_assign.hpp
+++ b/sprout/type_traits/has_right_shift_assign.hpp
@@ -5,8 +5,8 @@
   Distributed under the Boost Software License, Version 1.0. (See accompanying
   file LICENSE_1_0.txt or copy at http://www.boost.org/LICENSE_1_0.txt)
 =============================================================================*/
-#ifndef SPROUT_TYPE_TRAITS_HAS_SHIFT_RIGHT_ASSIGN_HPP
-#define SPROUT_TYPE_TRAITS_HAS_SHIFT_RIGHT_ASSIGN_HPP
+#ifndef SPROUT_TYPE_TRAITS_HAS_RIGHT_SHIFT_ASSIGN_HPP
+#define SPROUT_TYPE_TRAITS_HAS_RIGHT_SHIFT_ASSIGN_HPP
 
 #include <sprout/config.hpp>
 #include <sprout/type_traits/dont_care.hpp>
@@ -18,7 +18,7 @@ namespace sprout {
 	//
 	template<typename T, typename U = typename sprout::const_reference<T>::type, typename R = sprout::dont_care>
 	struct has_right_shift_assign
-		: public sprout::has_shift_right<T, U, R>
+		: public sprout::has_shift_right_assign<T, U, R>
 	{};
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
@@ -27,4 +27,4 @@ namespace sprout {
 #endif	// #if SPROUT_USE_VARIABLE_TEMPLATES
 }	// namespace sprout
 
-#endif	// #ifndef SPROUT_TYPE_TRAITS_HAS_SHIFT_RIGHT_ASSIGN_HPP
+#endif	// #ifndef SPROUT_TYPE_TRAITS_HAS_RIGHT_SHIFT_ASSIGN_HPP
-- 
2.43.0


From 3850ef7e763b120d2a891a8e0f6362dee8ec8de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:08 +0000
Subject: [PATCH 077/185] fix: has_left_shift_assign tested << instead of <<=

---
 sprout/type_traits/has_left_shift_assign.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/type_traits/has_left_shift_assign.hpp b/sprout/type_traits/has_left_shift_assign.hpp
index 2bcdf95..2fd2748 100644
--- a/sprout/type_traits/has_left_shift_assign.hpp
+++ b/sprout/type_traits/has_left_shift_assign.hpp
@@ -18,7 +18,7 @@ namespace sprout {
 	//
 	template<typename T, typename U = typename sprout::const_reference<T>::type, typename R = sprout::dont_care>
 	struct has_left_shift_assign
-		: public sprout::has_shift_left<T, U, R>
+		: public sprout::has_shift_left_assign<T, U, R>
 	{};
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
-- 
2.43.0


From a98d4f5f70dd0d93f5b2b576d5d6f1b08a866591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:20 +0000
Subject: [PATCH 078/185] fix: the mutating process_block of md5 incremented a
 const iterator

---
 sprout/checksum/md5.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/checksum/md5.hpp b/sprout/checksum/md5.hpp
index fe8e468..77caf49 100644
--- a/sprout/checksum/md5.hpp
+++ b/sprout/checksum/md5.hpp
@@ -362,7 +362,7 @@ namespace sprout {
 			block_.assign(0);
 		}
 		template<typename InputIterator>
-		SPROUT_CXX14_CONSTEXPR void process_block_impl(InputIterator const& first, InputIterator const& last) {
+		SPROUT_CXX14_CONSTEXPR void process_block_impl(InputIterator first, InputIterator last) {
 			for (; first != last; ++first) {
 				process_byte(*first);
 			}
-- 
2.43.0


From e3acf34417ed4a65c25621801d3cd4be2c381dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:19 +0000
Subject: [PATCH 079/185] fix: get_byte and set_byte of the endian traits
 shifted an int by the bits of wider types

---
 sprout/endian_traits.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/sprout/endian_traits.hpp b/sprout/endian_traits.hpp
index c18b994..2e4b8e5 100644
--- a/sprout/endian_traits.hpp
+++ b/sprout/endian_traits.hpp
@@ -53,14 +53,16 @@ namespace sprout {
 			static SPROUT_CONSTEXPR unsigned char
 			get_byte(type const& t, std::size_t i) {
 				return static_cast<unsigned char>(
-					(t & (UCHAR_MAX << CHAR_BIT * ((size() - 1) - i)))
-						>> CHAR_BIT * ((size() - 1) - i)
+					static_cast<typename std::make_unsigned<type>::type>(t) >> CHAR_BIT * ((size() - 1) - i)
 					);
 			}
 			static SPROUT_CXX14_CONSTEXPR void
 			set_byte(type& t, std::size_t i, unsigned char value) {
-				t &= ~(UCHAR_MAX << CHAR_BIT * ((size() - 1) - i));
-				t |= (value << CHAR_BIT * ((size() - 1) - i));
+				typedef typename std::make_unsigned<type>::type unsigned_type;
+				t = static_cast<type>(
+					(static_cast<unsigned_type>(t) & ~(static_cast<unsigned_type>(UCHAR_MAX) << CHAR_BIT * ((size() - 1) - i)))
+						| (static_cast<unsigned_type>(value) << CHAR_BIT * ((size() - 1) - i))
+					);
 			}
 		};
 
@@ -98,14 +100,16 @@ namespace sprout {
 			}
 			static SPROUT_CONSTEXPR unsigned char get_byte(type const& t, std::size_t i) {
 				return static_cast<unsigned char>(
-					(t & (UCHAR_MAX << CHAR_BIT * i))
-						>> CHAR_BIT * i
+					static_cast<typename std::make_unsigned<type>::type>(t) >> CHAR_BIT * i
 					);
 			}
 			static SPROUT_CXX14_CONSTEXPR void
 			set_byte(type& t, std::size_t i, unsigned char value) {
-				t &= ~(UCHAR_MAX << CHAR_BIT * i);
-				t |= (value << CHAR_BIT * i);
+				typedef typename std::make_unsigned<type>::type unsigned_type;
+				t = static_cast<type>(
+					(static_cast<unsigned_type>(t) & ~(static_cast<unsigned_type>(UCHAR_MAX) << CHAR_BIT * i))
+						| (static_cast<unsigned_type>(value) << CHAR_BIT * i)
+					);
 			}
 		};
 	}	// namespace detail
-- 
2.43.0


From 2489e3a7b0fdedd5ea1a69ec2bdae6e5170c26f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:50 +0000
Subject: [PATCH 080/185] fix: moving a bytes_iterator backwards computed the
 index within the element wrongly

---
 sprout/iterator/bytes_iterator.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/iterator/bytes_iterator.hpp b/sprout/iterator/bytes_iterator.hpp
index 65e73ee..5948dba 100644
--- a/sprout/iterator/bytes_iterator.hpp
+++ b/sprout/iterator/bytes_iterator.hpp
@@ -68,17 +68,17 @@ namespace sprout {
 			, i_(i % traits_type::size())
 		{}
 		SPROUT_CONSTEXPR bytes_iterator(iterator_type it, difference_type i, prev_tag)
-			: it_((i + 1 - traits_type::size()) / traits_type::size() == 0 ? it : sprout::prev(it))
-			, i_(i % traits_type::size() + traits_type::size())
+			: it_(i >= 0 ? it : sprout::prev(it))
+			, i_(i >= 0 ? i : i + static_cast<difference_type>(traits_type::size()))
 		{}
 		SPROUT_CONSTEXPR bytes_iterator(iterator_type it, difference_type i, ra_tag)
 			: it_(i >= 0
 				? sprout::next(it, i / traits_type::size())
-				: sprout::next(it, (i + 1 - traits_type::size()) / traits_type::size())
+				: sprout::next(it, (i + 1 - static_cast<difference_type>(traits_type::size())) / static_cast<difference_type>(traits_type::size()))
 				)
 			, i_(i >= 0
 				? i % traits_type::size()
-				: i % traits_type::size() + traits_type::size()
+				: (i + 1) % static_cast<difference_type>(traits_type::size()) + static_cast<difference_type>(traits_type::size()) - 1
 				)
 		{}
 	public:
-- 
2.43.0


From 0b13f417457fba22cee9fe8dac34975e28ed4011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:26 +0000
Subject: [PATCH 081/185] fix: tuple_get of a uuid could not be found by
 argument-dependent lookup

---
 sprout/uuid/tuple.hpp | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/sprout/uuid/tuple.hpp b/sprout/uuid/tuple.hpp
index 7ba170d..4d4101c 100644
--- a/sprout/uuid/tuple.hpp
+++ b/sprout/uuid/tuple.hpp
@@ -20,26 +20,28 @@
 #include <sprout/detail/nil_base.hpp>
 
 namespace sprout {
-	//
-	// tuple_get
-	//
-	template<std::size_t I>
-	inline SPROUT_CONSTEXPR sprout::uuids::uuid::value_type&
-	tuple_get(sprout::uuids::uuid& t) SPROUT_NOEXCEPT {
-		static_assert(I < 16, "tuple_get: index out of range");
-		return t[I];
-	}
-	template<std::size_t I>
-	inline SPROUT_CONSTEXPR sprout::uuids::uuid::value_type const&
-	tuple_get(sprout::uuids::uuid const& t) SPROUT_NOEXCEPT {
-		static_assert(I < 16, "tuple_get: index out of range");
-		return t[I];
-	}
-	template<std::size_t I>
-	inline SPROUT_CONSTEXPR sprout::uuids::uuid::value_type&&
-	tuple_get(sprout::uuids::uuid&& t) SPROUT_NOEXCEPT {
-		return sprout::move(sprout::tuples::get<I>(t));
-	}
+	namespace uuids {
+		//
+		// tuple_get
+		//
+		template<std::size_t I>
+		inline SPROUT_CONSTEXPR sprout::uuids::uuid::value_type&
+		tuple_get(sprout::uuids::uuid& t) SPROUT_NOEXCEPT {
+			static_assert(I < 16, "tuple_get: index out of range");
+			return t[I];
+		}
+		template<std::size_t I>
+		inline SPROUT_CONSTEXPR sprout::uuids::uuid::value_type const&
+		tuple_get(sprout::uuids::uuid const& t) SPROUT_NOEXCEPT {
+			static_assert(I < 16, "tuple_get: index out of range");
+			return t[I];
+		}
+		template<std::size_t I>
+		inline SPROUT_CONSTEXPR sprout::uuids::uuid::value_type&&
+		tuple_get(sprout::uuids::uuid&& t) SPROUT_NOEXCEPT {
+			return sprout::move(sprout::tuples::get<I>(t));
+		}
+	}	// namespace uuids
 }	// namespace sprout
 
 namespace std {
-- 
2.43.0


From 18a4679d5d8cd056349c2a16d5a31951bac5d520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:26 +0000
Subject: [PATCH 082/185] fix: the extraction operator of a uuid did not
 compile

---
 sprout/uuid/io.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sprout/uuid/io.hpp b/sprout/uuid/io.hpp
index 4452e10..de17493 100644
--- a/sprout/uuid/io.hpp
+++ b/sprout/uuid/io.hpp
@@ -40,26 +40,27 @@ namespace sprout {
 					char const szdigits[] = "0123456789ABCDEF";
 					ctype.widen(szdigits, szdigits + 16, xdigits);
 				}
+				char_type const* const xdigits_begin = xdigits;
 				char_type const* const xdigits_end = xdigits + 16;
 				char_type c;
 				for (sprout::uuids::uuid::size_type i = 0, last = rhs.size(); i < last && lhs; ++i) {
 					lhs >> c;
 					c = ctype.toupper(c);
-					char_type const* f = sprout::find(xdigits, xdigits_end, c);
+					char_type const* f = sprout::find(xdigits_begin, xdigits_end, c);
 					if (f == xdigits_end) {
 						lhs.setstate(std::ios_base::failbit);
 						break;
 					}
-					sprout::uuids::uuid::value_type byte = static_cast<sprout::uuids::uuid::value_type>(std::distance(&xdigits[0], f));
+					sprout::uuids::uuid::value_type byte = static_cast<sprout::uuids::uuid::value_type>(std::distance(xdigits_begin, f));
 					lhs >> c;
 					c = ctype.toupper(c);
-					f = sprout::find(xdigits, xdigits_end, c);
+					f = sprout::find(xdigits_begin, xdigits_end, c);
 					if (f == xdigits_end) {
 						lhs.setstate(std::ios_base::failbit);
 						break;
 					}
 					byte <<= 4;
-					byte |= static_cast<sprout::uuids::uuid::value_type>(std::distance(&xdigits[0], f));
+					byte |= static_cast<sprout::uuids::uuid::value_type>(std::distance(xdigits_begin, f));
 					data[i] = byte;
 					if (lhs) {
 						if (i == 3 || i == 5 || i == 7 || i == 9) {
-- 
2.43.0


From 48fa25793baebe466217f961a19aedf67ca61f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:55 +0000
Subject: [PATCH 083/185] fix: hash_value of a uuid could not be found by
 argument-dependent lookup, so that hashing one recursed without end

---
 sprout/uuid/hash.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/sprout/uuid/hash.hpp b/sprout/uuid/hash.hpp
index 8b7e55d..ecb9a54 100644
--- a/sprout/uuid/hash.hpp
+++ b/sprout/uuid/hash.hpp
@@ -15,13 +15,15 @@
 #include <sprout/functional/hash.hpp>
 
 namespace sprout {
-	//
-	// hash_value
-	//
-	inline SPROUT_CONSTEXPR std::size_t
-	hash_value(sprout::uuids::uuid const& v) {
-		return sprout::hash_range(v);
-	}
+	namespace uuids {
+		//
+		// hash_value
+		//
+		inline SPROUT_CONSTEXPR std::size_t
+		hash_value(sprout::uuids::uuid const& v) {
+			return sprout::hash_range(v);
+		}
+	}	// namespace uuids
 }	// namespace sprout
 
 namespace std {
-- 
2.43.0


From f6a8b6e0b3d1a0aae5573ba3e971d2efe05bccbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:55 +0000
Subject: [PATCH 084/185] fix: a uuid inserted into a left-adjusting stream had
 digits of its bytes swapped

---
 sprout/uuid/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/uuid/io.hpp b/sprout/uuid/io.hpp
index de17493..e883508 100644
--- a/sprout/uuid/io.hpp
+++ b/sprout/uuid/io.hpp
@@ -97,7 +97,7 @@ namespace sprout {
 						lhs << fill;
 					}
 				}
-				lhs << std::hex;
+				lhs << std::hex << std::right;
 				lhs.fill(lhs.widen('0'));
 				std::size_t i = 0;
 				for (sprout::uuids::uuid::const_iterator i_data = rhs.begin(), i_last = rhs.end(); i_data != i_last; ++i_data, ++i) {
-- 
2.43.0


From 3f0f651b99ae713835557465064b0503d8d84b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:01 +0000
Subject: [PATCH 085/185] fix: with a mutable engine of the same range
 uniform_int_distribution dropped every other draw

---
 sprout/random/uniform_int_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/uniform_int_distribution.hpp b/sprout/random/uniform_int_distribution.hpp
index 62e9608..eb5f940 100644
--- a/sprout/random/uniform_int_distribution.hpp
+++ b/sprout/random/uniform_int_distribution.hpp
@@ -50,7 +50,7 @@ namespace sprout {
 				} else if (brange == range) {
 					base_unsigned v = sprout::random::detail::subtract<base_result>()(static_cast<base_result>(eng()), bmin);
 					return sprout::random::detail::add<base_unsigned, result_type>()(
-						static_cast<base_unsigned>(sprout::random::detail::subtract<base_result>()(static_cast<base_result>(eng()), bmin)),
+						v,
 						min_value
 						);
 				} else if (brange < range) {
-- 
2.43.0


From 178fc486ce1d8e0ca6ca8e718f96a4e6d8c866bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:01 +0000
Subject: [PATCH 086/185] fix: the uuid header used the fixed-width types
 without including their header

---
 sprout/uuid/uuid.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sprout/uuid/uuid.hpp b/sprout/uuid/uuid.hpp
index c1f5770..4706e42 100644
--- a/sprout/uuid/uuid.hpp
+++ b/sprout/uuid/uuid.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_UUID_UUID_HPP
 #define SPROUT_UUID_UUID_HPP
 
+#include <cstdint>
 #include <utility>
 #include <stdexcept>
 #include <type_traits>
-- 
2.43.0


From 759e2721cdacf17655f935a9122c2338f1869090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:27 +0000
Subject: [PATCH 087/185] fix: math::equal_to took a negative integer for the
 unsigned one it wraps to, unlike less and greater

---
 sprout/math/equal_to.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/math/equal_to.hpp b/sprout/math/equal_to.hpp
index e6d613f..c67620e 100644
--- a/sprout/math/equal_to.hpp
+++ b/sprout/math/equal_to.hpp
@@ -54,7 +54,7 @@ namespace sprout {
 			>
 			inline SPROUT_CONSTEXPR bool
 			equal_to(IntType1 x, IntType2 y) {
-				return x == y;
+				return (x < 0) == (y < 0) && x == y;
 			}
 		}	// namespace detail
 		//
-- 
2.43.0


From 8628f4f95befcca833ca6452c14d235aeaa8214e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:49 +0000
Subject: [PATCH 088/185] fix: the valarray forms of atan2 did not compile
 (misnamed parameters, misplaced call) and read past the second operand

---
 sprout/valarray/trigonometric.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sprout/valarray/trigonometric.hpp b/sprout/valarray/trigonometric.hpp
index 92d5e68..c7cd41f 100644
--- a/sprout/valarray/trigonometric.hpp
+++ b/sprout/valarray/trigonometric.hpp
@@ -56,7 +56,7 @@ namespace sprout_math_detail {
 	call_atan2(T&& x, U&& y)
 	SPROUT_NOEXCEPT_IF_EXPR(atan2(std::declval<T>(), std::declval<U>()))
 	{
-		return atan2(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, u));
+		return atan2(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, y));
 	}
 	template<typename T>
 	inline SPROUT_CONSTEXPR decltype(cos(std::declval<T>()))
@@ -199,17 +199,17 @@ namespace sprout {
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
 	atan2(sprout::valarray<T, N> const& x, sprout::valarray<T, N> const& y) {
-		return sprout::fixed::transform(x.begin(), x.end(), y.end(), x, sprout::detail::atan2_f());
+		return sprout::fixed::transform(x.begin(), x.end(), y.begin(), x, sprout::detail::atan2_f());
 	}
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
-	atan2(sprout::valarray<T, N> const& lhs, T const& y) {
-		return sprout::fixed::transform(x.begin(), x.end(), x, sprout::bind2nd(sprout::detail::atan2_f()()), y));
+	atan2(sprout::valarray<T, N> const& x, T const& y) {
+		return sprout::fixed::transform(x.begin(), x.end(), x, sprout::bind2nd(sprout::detail::atan2_f(), y));
 	}
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
 	atan2(T const& x, sprout::valarray<T, N> const& y) {
-		return sprout::fixed::transform(y.begin(), y.end(), y, sprout::bind1st(sprout::detail::atan2_f()()), x));
+		return sprout::fixed::transform(y.begin(), y.end(), y, sprout::bind1st(sprout::detail::atan2_f(), x));
 	}
 	//
 	// cos
-- 
2.43.0


From 42435018ac97f14e54afb802e13b3c3f15c3dc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:49 +0000
Subject: [PATCH 089/185] fix: has_comma could not be expanded

---
 sprout/type_traits/has_comma.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sprout/type_traits/has_comma.hpp b/sprout/type_traits/has_comma.hpp
index 31dfcb2..2b3397c 100644
--- a/sprout/type_traits/has_comma.hpp
+++ b/sprout/type_traits/has_comma.hpp
@@ -11,13 +11,16 @@
 #include <sprout/config.hpp>
 #include <sprout/type_traits/dont_care.hpp>
 #include <sprout/type_traits/detail/has_binary_op.hpp>
-#include <sprout/preprocessor/comma.hpp>
+#include <sprout/preprocessor/empty.hpp>
 
 namespace sprout {
 	//
 	// has_comma
 	//
-	SPROUT_DETAIL_HAS_BINARY_OP_DECL(comma, SPROUT_PP_COMMA(), = T);
+#define SPROUT_DETAIL_HAS_COMMA_EXPR(OP, LHS, RHS) \
+	LHS , RHS
+	SPROUT_DETAIL_HAS_BINARY_OP_DECL_(comma, SPROUT_PP_EMPTY(), = T, SPROUT_DETAIL_HAS_COMMA_EXPR);
+#undef SPROUT_DETAIL_HAS_COMMA_EXPR
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
 	template<typename T, typename U = T, typename R = sprout::dont_care>
-- 
2.43.0


From 6207f288f18098f7a59fb4c15bd991a65ba2a911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:49 +0000
Subject: [PATCH 090/185] fix: has_bit_and_assign, has_bit_or_assign and
 has_bit_xor_assign tested plain assignment

---
 sprout/type_traits/has_bit_and_assign.hpp | 2 +-
 sprout/type_traits/has_bit_or_assign.hpp  | 2 +-
 sprout/type_traits/has_bit_xor_assign.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/type_traits/has_bit_and_assign.hpp b/sprout/type_traits/has_bit_and_assign.hpp
index d89f362..6a29731 100644
--- a/sprout/type_traits/has_bit_and_assign.hpp
+++ b/sprout/type_traits/has_bit_and_assign.hpp
@@ -17,7 +17,7 @@ namespace sprout {
 	//
 	// has_bit_and_assign
 	//
-	SPROUT_DETAIL_HAS_BINARY_OP_DECL(bit_and_assign, =, = typename sprout::const_reference<T>::type);
+	SPROUT_DETAIL_HAS_BINARY_OP_DECL(bit_and_assign, &=, = typename sprout::const_reference<T>::type);
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
 	template<typename T, typename U = typename sprout::const_reference<T>::type, typename R = sprout::dont_care>
diff --git a/sprout/type_traits/has_bit_or_assign.hpp b/sprout/type_traits/has_bit_or_assign.hpp
index 1eb3d63..950e25a 100644
--- a/sprout/type_traits/has_bit_or_assign.hpp
+++ b/sprout/type_traits/has_bit_or_assign.hpp
@@ -17,7 +17,7 @@ namespace sprout {
 	//
 	// has_bit_or_assign
 	//
-	SPROUT_DETAIL_HAS_BINARY_OP_DECL(bit_or_assign, =, = typename sprout::const_reference<T>::type);
+	SPROUT_DETAIL_HAS_BINARY_OP_DECL(bit_or_assign, |=, = typename sprout::const_reference<T>::type);
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
 	template<typename T, typename U = typename sprout::const_reference<T>::type, typename R = sprout::dont_care>
diff --git a/sprout/type_traits/has_bit_xor_assign.hpp b/sprout/type_traits/has_bit_xor_assign.hpp
index 1969a4c..a4228e7 100644
--- a/sprout/type_traits/has_bit_xor_assign.hpp
+++ b/sprout/type_traits/has_bit_xor_assign.hpp
@@ -17,7 +17,7 @@ namespace sprout {
 	//
 	// has_bit_xor_assign
 	//
-	SPROUT_DETAIL_HAS_BINARY_OP_DECL(bit_xor_assign, =, = typename sprout::const_reference<T>::type);
+	SPROUT_DETAIL_HAS_BINARY_OP_DECL(bit_xor_assign, ^=, = typename sprout::const_reference<T>::type);
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
 	template<typename T, typename U = typename sprout::const_reference<T>::type, typename R = sprout::dont_care>
-- 
2.43.0


From 38a30fb53c16390e1525c1c6b438a5ef5b11a999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:13 +0000
Subject: [PATCH 091/185] fix: valarray atan2, hypot, pow and log_a with a
 scalar operand did not compile (functor call operator not const)

---
 sprout/valarray/power.hpp         | 6 +++---
 sprout/valarray/trigonometric.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/valarray/power.hpp b/sprout/valarray/power.hpp
index 448af94..aef05be 100644
--- a/sprout/valarray/power.hpp
+++ b/sprout/valarray/power.hpp
@@ -107,7 +107,7 @@ namespace sprout {
 		public:
 			template<typename T, typename U>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_hypot(std::declval<T>(), std::declval<U>()))
-			operator()(T&& x, U&& y)
+			operator()(T&& x, U&& y) const
 			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_hypot(std::declval<T>(), std::declval<U>()))
 			{
 				return sprout_math_detail::call_hypot(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, y));
@@ -119,7 +119,7 @@ namespace sprout {
 		public:
 			template<typename T, typename U>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_pow(std::declval<T>(), std::declval<U>()))
-			operator()(T&& x, U&& y)
+			operator()(T&& x, U&& y) const
 			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_pow(std::declval<T>(), std::declval<U>()))
 			{
 				return sprout_math_detail::call_pow(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, y));
@@ -143,7 +143,7 @@ namespace sprout {
 		public:
 			template<typename T, typename U>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_log_a(std::declval<T>(), std::declval<U>()))
-			operator()(T&& x, U&& y)
+			operator()(T&& x, U&& y) const
 			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_log_a(std::declval<T>(), std::declval<U>()))
 			{
 				return sprout_math_detail::call_log_a(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, y));
diff --git a/sprout/valarray/trigonometric.hpp b/sprout/valarray/trigonometric.hpp
index c7cd41f..0add33c 100644
--- a/sprout/valarray/trigonometric.hpp
+++ b/sprout/valarray/trigonometric.hpp
@@ -125,7 +125,7 @@ namespace sprout {
 		public:
 			template<typename T, typename U>
 			SPROUT_CONSTEXPR decltype(sprout_math_detail::call_atan2(std::declval<T>(), std::declval<U>()))
-			operator()(T&& x, U&& y)
+			operator()(T&& x, U&& y) const
 			SPROUT_NOEXCEPT_IF_EXPR(sprout_math_detail::call_atan2(std::declval<T>(), std::declval<U>()))
 			{
 				return sprout_math_detail::call_atan2(SPROUT_FORWARD(T, x), SPROUT_FORWARD(U, y));
-- 
2.43.0


From af3a0b279cfc8aa62461250b3d996260efa2e6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:55 +0000
Subject: [PATCH 092/185] fix: random engines could not be copied from a
 non-const engine: it was taken for a seed sequence

---
 sprout/random/type_traits.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/sprout/random/type_traits.hpp b/sprout/random/type_traits.hpp
index 5fe39c0..90c686d 100644
--- a/sprout/random/type_traits.hpp
+++ b/sprout/random/type_traits.hpp
@@ -18,7 +18,24 @@ namespace sprout {
 		//
 		// is_seed_seq
 		//
-		SPROUT_HAS_XXX_TYPE_DEF(is_seed_seq, result_type);
+		// a random number engine also has result_type, but no size()
+		namespace detail {
+			template<typename T>
+			struct is_seed_seq_test {
+			public:
+				template<
+					typename U = T,
+					typename = typename U::result_type,
+					typename = decltype(std::declval<U const&>().size())
+				>
+				static sprout::true_type test(int);
+				static sprout::false_type test(...);
+			};
+		}	// namespace detail
+		template<typename T>
+		struct is_seed_seq
+			: public decltype(sprout::random::detail::is_seed_seq_test<T>::test(0))
+		{};
 
 		//
 		// is_real_std_random_parameter
-- 
2.43.0


From 80801810915bd40c2f39d0dc967812072fd2a2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:55 +0000
Subject: [PATCH 093/185] fix: linear congruential engines with modulus 0 (the
 whole word) were rejected

---
 sprout/random/detail/const_mod.hpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/sprout/random/detail/const_mod.hpp b/sprout/random/detail/const_mod.hpp
index 75e895d..9981594 100644
--- a/sprout/random/detail/const_mod.hpp
+++ b/sprout/random/detail/const_mod.hpp
@@ -26,9 +26,6 @@ namespace sprout {
 			private:
 				SPROUT_STATIC_CONSTEXPR IntType supress_warnings = m == 0;
 				SPROUT_STATIC_CONSTEXPR IntType modulus = m + supress_warnings;
-			private:
-				static_assert(supress_warnings == 0, "supress_warnings == 0");
-				static_assert(modulus == m, "modulus == m");
 			private:
 				static SPROUT_CONSTEXPR IntType pow_1(IntType a, std::uintmax_t exponent, IntType result = 1) {
 					return exponent != 0
-- 
2.43.0


From debd60c52407b9c43bad01672abdc75498162e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:35 +0000
Subject: [PATCH 094/185] fix: linear congruential engines could not be seeded
 from a constant seed array or a pair of iterators

---
 sprout/random/detail/seed_impl.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/random/detail/seed_impl.hpp b/sprout/random/detail/seed_impl.hpp
index 03c93e2..8ebdeb2 100644
--- a/sprout/random/detail/seed_impl.hpp
+++ b/sprout/random/detail/seed_impl.hpp
@@ -39,7 +39,7 @@ namespace sprout {
 				>
 			{};
 
-			template<typename IntType, IntType m, int log, int k, typename Array>
+			template<typename IntType, IntType m, int k, typename Array>
 			inline SPROUT_CONSTEXPR IntType
 			seed_one_int_impl(Array const& arr, IntType s, int j) {
 				return j < k ? sprout::random::detail::seed_one_int_impl<IntType, m, k>(
@@ -60,7 +60,7 @@ namespace sprout {
 				typedef typename sprout::random::detail::seed_log<IntType, m>::type log_t;
 				typedef typename sprout::random::detail::seed_k<IntType, m, log_t::value>::type k_t;
 				return sprout::random::detail::seed_one_int_impl<IntType, m, k_t::value>(
-					seq.generate(sprout::pit<sprout::array<std::uint_least32_t, log_t::value / 32 + 4> >()),
+					seq.generate(sprout::pit<sprout::array<std::uint_least32_t, k_t::value + 3> >()),
 					0, 0
 					);
 			}
@@ -80,7 +80,7 @@ namespace sprout {
 				return s;
 			}
 
-			template<typename IntType, IntType m, int log, int k, typename InputIterator>
+			template<typename IntType, IntType m, int k, typename InputIterator>
 			inline SPROUT_CONSTEXPR IntType
 			get_one_int_impl(InputIterator first, InputIterator last, IntType s, int j) {
 				return j < k
-- 
2.43.0


From 03bcee60468461c4e9949bf4715005ed481ccd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:35 +0000
Subject: [PATCH 095/185] fix: sprout::empty did not compile for class
 containers

---
 sprout/container/container_range_traits.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sprout/container/container_range_traits.hpp b/sprout/container/container_range_traits.hpp
index 0d3881a..5027219 100644
--- a/sprout/container/container_range_traits.hpp
+++ b/sprout/container/container_range_traits.hpp
@@ -142,7 +142,7 @@ namespace sprout {
 	template<typename Container>
 	struct container_range_empty_default {
 	public:
-		static SPROUT_CONSTEXPR typename sprout::container_traits<Container const>::size_type
+		static SPROUT_CONSTEXPR bool
 		range_empty(Container const& cont) {
 			using sprout_container_range_detail::range_empty;
 			using sprout_adl::range_empty;
@@ -291,6 +291,7 @@ namespace sprout {
 		: public sprout::container_range_begin_default<Container>
 		, public sprout::container_range_end_default<Container>
 		, public sprout::container_range_size_default<Container>
+		, public sprout::container_range_empty_default<Container>
 		, public sprout::container_range_front_default<Container>
 		, public sprout::container_range_back_default<Container>
 		, public sprout::container_range_subscript_at_default<Container>
-- 
2.43.0


From abb8cff73fd4509c4f252dceabcbf75d4281d0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:54 +0000
Subject: [PATCH 096/185] fix: engines over a whole word could not be seeded
 from a seed array or a pair of iterators

---
 sprout/random/detail/seed_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/detail/seed_impl.hpp b/sprout/random/detail/seed_impl.hpp
index 8ebdeb2..cbd9f94 100644
--- a/sprout/random/detail/seed_impl.hpp
+++ b/sprout/random/detail/seed_impl.hpp
@@ -28,7 +28,7 @@ namespace sprout {
 				: public std::conditional<
 					m == 0,
 					sprout::integral_constant<int, sprout::numeric_limits<IntType>::digits>,
-					sprout::integral_constant<int, sprout::detail::static_log2<m>::value>
+					sprout::detail::static_log2<m>
 				>::type
 			{};
 			template<typename IntType, IntType m, int log>
-- 
2.43.0


From 72025abc891d2e6f6bb59cdcce5530fe533b0b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:52 +0000
Subject: [PATCH 097/185] fix: iterators and ranges of random numbers could not
 be incremented (const generator type), and make_range of an engine did not
 compile

---
 sprout/random/iterator.hpp | 24 ++++++++++++------------
 sprout/random/range.hpp    | 12 ++++++------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/sprout/random/iterator.hpp b/sprout/random/iterator.hpp
index 262927b..896c774 100644
--- a/sprout/random/iterator.hpp
+++ b/sprout/random/iterator.hpp
@@ -25,26 +25,26 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR auto
 		begin(
 			Engine const& engine, Distribution const& distribution,
-			typename sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>::difference_type count = -1
+			typename sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>::difference_type count = -1
 			)
-		-> sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>
+		-> sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>
 		{
 			return count >= 0
-				? sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>(distribution(engine), count)
-				: sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>(distribution(engine))
+				? sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>(distribution(engine), count)
+				: sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>(distribution(engine))
 				;
 		}
 		template<typename Engine>
 		inline SPROUT_CONSTEXPR auto
 		begin(
 			Engine const& engine,
-			typename sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>::difference_type count = -1
+			typename sprout::generator_iterator<typename std::decay<decltype(engine())>::type>::difference_type count = -1
 			)
-		-> sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>
+		-> sprout::generator_iterator<typename std::decay<decltype(engine())>::type>
 		{
 			return count >= 0
-				? sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>(engine(), count)
-				: sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>(engine())
+				? sprout::generator_iterator<typename std::decay<decltype(engine())>::type>(engine(), count)
+				: sprout::generator_iterator<typename std::decay<decltype(engine())>::type>(engine())
 				;
 		}
 
@@ -57,16 +57,16 @@ namespace sprout {
 		>
 		inline SPROUT_CONSTEXPR auto
 		end(Engine const& engine, Distribution const& distribution)
-		-> sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>
+		-> sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>
 		{
-			return sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>();
+			return sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>();
 		}
 		template<typename Engine>
 		inline SPROUT_CONSTEXPR auto
 		end(Engine const& engine)
-		-> sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>
+		-> sprout::generator_iterator<typename std::decay<decltype(engine())>::type>
 		{
-			return sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>();
+			return sprout::generator_iterator<typename std::decay<decltype(engine())>::type>();
 		}
 	}	// namespace random
 }	// namespace sprout
diff --git a/sprout/random/range.hpp b/sprout/random/range.hpp
index ed96050..03d914d 100644
--- a/sprout/random/range.hpp
+++ b/sprout/random/range.hpp
@@ -27,11 +27,11 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR auto
 		make_range(
 			Engine const& engine, Distribution const& distribution,
-			typename sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type>::difference_type count = -1
+			typename sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type>::difference_type count = -1
 			)
-		-> sprout::range::range_container<sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type> >
+		-> sprout::range::range_container<sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type> >
 		{
-			return sprout::range::range_container<sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type> >(
+			return sprout::range::range_container<sprout::generator_iterator<typename std::decay<decltype(distribution(engine))>::type> >(
 				sprout::random::begin(engine, distribution, count),
 				sprout::random::end(engine, distribution)
 				);
@@ -40,11 +40,11 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR auto
 		make_range(
 			Engine const& engine,
-			typename sprout::generator_iterator<typename std::remove_reference<decltype(engine())>::type>::difference_type count = -1
+			typename sprout::generator_iterator<typename std::decay<decltype(engine())>::type>::difference_type count = -1
 			)
-		-> sprout::range::range_container<sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type> >
+		-> sprout::range::range_container<sprout::generator_iterator<typename std::decay<decltype(engine())>::type> >
 		{
-			return sprout::range::range_container<sprout::generator_iterator<typename std::remove_reference<decltype(distribution(engine))>::type> >(
+			return sprout::range::range_container<sprout::generator_iterator<typename std::decay<decltype(engine())>::type> >(
 				sprout::random::begin(engine, count),
 				sprout::random::end(engine)
 				);
-- 
2.43.0


From d71b501c7dfc33e347d0174f9701b00df5cc070b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:08 +0000
Subject: [PATCH 098/185] fix: rand48 kept only 15 bits of each number: it
 truncated the state before shifting it

---
 sprout/random/linear_congruential.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/random/linear_congruential.hpp b/sprout/random/linear_congruential.hpp
index cde06c9..85c8ce8 100644
--- a/sprout/random/linear_congruential.hpp
+++ b/sprout/random/linear_congruential.hpp
@@ -325,7 +325,7 @@ namespace sprout {
 			template<typename EngineResult>
 			SPROUT_CONSTEXPR sprout::random::random_result<rand48> generate(EngineResult const& rnd) const {
 				return sprout::random::random_result<rand48>(
-					static_cast<result_type>(sprout::random::result(rnd)) >> 17,
+					static_cast<result_type>(sprout::random::result(rnd) >> 17),
 					rand48(sprout::random::next(rnd), private_construct_t())
 					);
 			}
@@ -343,7 +343,7 @@ namespace sprout {
 				return static_max();
 			}
 			SPROUT_CXX14_CONSTEXPR result_type operator()() {
-				return static_cast<result_type>(static_cast<result_type>(lcf_()) >> 17);
+				return static_cast<result_type>(lcf_() >> 17);
 			}
 			SPROUT_CONSTEXPR sprout::random::random_result<rand48> const operator()() const {
 				return generate(lcf_());
-- 
2.43.0


From 1c73821ee2bc0723dd9a03e8f80306c53e0464ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:08 +0000
Subject: [PATCH 099/185] fix: the constant interface of
 mersenne_twister_engine did not shift the upper bit of the twisted state

---
 sprout/random/mersenne_twister.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sprout/random/mersenne_twister.hpp b/sprout/random/mersenne_twister.hpp
index 91ad483..a56f81a 100644
--- a/sprout/random/mersenne_twister.hpp
+++ b/sprout/random/mersenne_twister.hpp
@@ -299,7 +299,7 @@ namespace sprout {
 			SPROUT_CONSTEXPR mersenne_twister_engine twist_5(Args const&... args) const {
 				return mersenne_twister_engine(
 					sprout::array<result_type, n>{{
-						args..., x_[m - 1] ^ ((x_[n - 1] & upper_mask) | (x_[0] & lower_mask) >> 1) ^ ((x_[0] & 1) * a)
+						args..., x_[m - 1] ^ (((x_[n - 1] & upper_mask) | (x_[0] & lower_mask)) >> 1) ^ ((x_[0] & 1) * a)
 						}},
 					0,
 					private_construct_t()
@@ -318,7 +318,7 @@ namespace sprout {
 				mersenne_twister_engine
 			>::type twist_4(std::size_t i, Args const&... args) const {
 				return twist_4(
-					i + 1, args..., x_[i - (n - m)] ^ ((x_[i] & upper_mask) | (x_[i + 1] & lower_mask) >> 1) ^ ((x_[i + 1] & 1) * a)
+					i + 1, args..., x_[i - (n - m)] ^ (((x_[i] & upper_mask) | (x_[i + 1] & lower_mask)) >> 1) ^ ((x_[i + 1] & 1) * a)
 					);
 			}
 			template<typename... Args>
@@ -334,7 +334,7 @@ namespace sprout {
 				mersenne_twister_engine
 			>::type twist_3(std::size_t i, Args const&... args) const {
 				return twist_3(
-					i + 1, args..., x_[i - (n - m)] ^ ((x_[i] & upper_mask) | (x_[i + 1] & lower_mask) >> 1) ^ ((x_[i + 1] & 1) * a)
+					i + 1, args..., x_[i - (n - m)] ^ (((x_[i] & upper_mask) | (x_[i + 1] & lower_mask)) >> 1) ^ ((x_[i + 1] & 1) * a)
 					);
 			}
 			template<typename... Args>
@@ -350,7 +350,7 @@ namespace sprout {
 				mersenne_twister_engine
 			>::type twist_2(std::size_t i, Args const&... args) const {
 				return twist_2(
-					i + 1, args..., x_[i + m] ^ ((x_[i] & upper_mask) | (x_[i + 1] & lower_mask) >> 1) ^ ((x_[i + 1] & 1) * a)
+					i + 1, args..., x_[i + m] ^ (((x_[i] & upper_mask) | (x_[i + 1] & lower_mask)) >> 1) ^ ((x_[i + 1] & 1) * a)
 					);
 			}
 			template<typename... Args>
@@ -366,7 +366,7 @@ namespace sprout {
 				mersenne_twister_engine
 			>::type twist_1(std::size_t i, Args const&... args) const {
 				return twist_1(
-					i + 1, args..., x_[i + m] ^ ((x_[i] & upper_mask) | (x_[i + 1] & lower_mask) >> 1) ^ ((x_[i + 1] & 1) * a)
+					i + 1, args..., x_[i + m] ^ (((x_[i] & upper_mask) | (x_[i + 1] & lower_mask)) >> 1) ^ ((x_[i + 1] & 1) * a)
 					);
 			}
 			SPROUT_CONSTEXPR mersenne_twister_engine twist() const {
-- 
2.43.0


From 067938556f8d6a800f4c7fedeb1a661e5610cfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:08 +0000
Subject: [PATCH 100/185] fix: mersenne_twister_engine wrote a wrong number of
 state words and did not rewind the state it wrote

---
 sprout/random/mersenne_twister.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/random/mersenne_twister.hpp b/sprout/random/mersenne_twister.hpp
index a56f81a..fce7a0a 100644
--- a/sprout/random/mersenne_twister.hpp
+++ b/sprout/random/mersenne_twister.hpp
@@ -522,10 +522,10 @@ namespace sprout {
 					data[i + n - rhs.i_] = rhs.x_[i];
 				}
 				if (rhs.i_ != n) {
-					data = rhs.rewind(data, &data[n - rhs.i_ - 1], n - rhs.i_);
+					rhs.do_rewind(&data[n - rhs.i_ - 1], n - rhs.i_);
 				}
 				lhs << data[0];
-				for (std::size_t i = 0; i < rhs.i_; ++i) {
+				for (std::size_t i = 1; i < n; ++i) {
 					lhs << ' ' << data[i];
 				}
 				return lhs;
-- 
2.43.0


From 4a9b8d7eed38bd2832419636d47eef92886a52cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:08 +0000
Subject: [PATCH 101/185] fix: comparing mersenne_twister_engines at different
 positions in C++11 did not terminate

---
 sprout/random/mersenne_twister.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sprout/random/mersenne_twister.hpp b/sprout/random/mersenne_twister.hpp
index fce7a0a..a06a754 100644
--- a/sprout/random/mersenne_twister.hpp
+++ b/sprout/random/mersenne_twister.hpp
@@ -249,26 +249,26 @@ namespace sprout {
 				return rewind_1(data, last, z, x_[m - 1] ^ x_[n - 1]);
 			}
 			SPROUT_CONSTEXPR bool
-			equal_impl_2(mersenne_twister_engine const& other, sprout::array<result_type, n> const& back, std::size_t offset, std::size_t i = 0) const {
+			equal_impl_2(mersenne_twister_engine const& twisted, std::size_t offset, std::size_t i = 0) const {
 				return i < offset
-					? back[i + n - offset] != other.x_[i]
+					? x_[i + n - offset] != twisted.x_[i]
 						? false
-						: equal_impl_2(other, back, offset, i + 1)
+						: equal_impl_2(twisted, offset, i + 1)
 					: true
 					;
 			}
 			SPROUT_CONSTEXPR bool
-			equal_impl_1(mersenne_twister_engine const& other, sprout::array<result_type, n> const& back, std::size_t offset, std::size_t i = 0) const {
+			equal_impl_1(mersenne_twister_engine const& other, std::size_t offset, std::size_t i = 0) const {
 				return i + offset < n
 					? x_[i] != other.x_[i + offset]
 						? false
-						: equal_impl_1(other, back, offset, i + 1)
-					: equal_impl_2(other, rewind(back, &back[n - 1], offset), offset)
+						: equal_impl_1(other, offset, i + 1)
+					: offset == 0 || equal_impl_2(other.twist(), offset)
 					;
 			}
 			SPROUT_CONSTEXPR bool
 			equal_impl(mersenne_twister_engine const& other) const {
-				return equal_impl_1(other, sprout::array<result_type, n>(), other.i_ - i_);
+				return equal_impl_1(other, other.i_ - i_);
 			}
 			SPROUT_CONSTEXPR result_type generate_impl_4(result_type z) const {
 				return z ^ (z >> l);
-- 
2.43.0


From 659a86fcca61251a589103d22aae5dc9dbed3d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:11 +0000
Subject: [PATCH 102/185] fix: reading a mersenne_twister_engine from text that
 ends with its state set failbit

---
 sprout/random/mersenne_twister.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/mersenne_twister.hpp b/sprout/random/mersenne_twister.hpp
index a06a754..2a77709 100644
--- a/sprout/random/mersenne_twister.hpp
+++ b/sprout/random/mersenne_twister.hpp
@@ -506,7 +506,7 @@ namespace sprout {
 				)
 			{
 				for (std::size_t i = 0; i < state_size; ++i) {
-					lhs >> rhs.x_[i] >> std::ws;
+					lhs >> std::ws >> rhs.x_[i];
 				}
 				rhs.i_ = state_size;
 				return lhs;
-- 
2.43.0


From de5cb2f14132633488e933bf98d6918d5ee71b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:53 +0000
Subject: [PATCH 103/185] fix: the constant interface of
 mersenne_twister_engine twisted from words that should already have been
 twisted

---
 sprout/random/mersenne_twister.hpp | 101 ++++++++---------------------
 1 file changed, 28 insertions(+), 73 deletions(-)

diff --git a/sprout/random/mersenne_twister.hpp b/sprout/random/mersenne_twister.hpp
index 2a77709..81526da 100644
--- a/sprout/random/mersenne_twister.hpp
+++ b/sprout/random/mersenne_twister.hpp
@@ -16,6 +16,7 @@
 #include <sprout/cstdint.hpp>
 #include <sprout/random/random_result.hpp>
 #include <sprout/array/array.hpp>
+#include <sprout/index_tuple/metafunction.hpp>
 #include <sprout/detail/integer/integer_mask.hpp>
 
 namespace sprout {
@@ -295,82 +296,36 @@ namespace sprout {
 						)
 					);
 			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR mersenne_twister_engine twist_5(Args const&... args) const {
-				return mersenne_twister_engine(
-					sprout::array<result_type, n>{{
-						args..., x_[m - 1] ^ (((x_[n - 1] & upper_mask) | (x_[0] & lower_mask)) >> 1) ^ ((x_[0] & 1) * a)
-						}},
-					0,
-					private_construct_t()
-					);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n - 1,
-				mersenne_twister_engine
-			>::type twist_4(std::size_t, Args const&... args) const {
-				return twist_5(args...);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n - 1,
-				mersenne_twister_engine
-			>::type twist_4(std::size_t i, Args const&... args) const {
-				return twist_4(
-					i + 1, args..., x_[i - (n - m)] ^ (((x_[i] & upper_mask) | (x_[i + 1] & lower_mask)) >> 1) ^ ((x_[i + 1] & 1) * a)
-					);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n - 1 - unroll_extra2,
-				mersenne_twister_engine
-			>::type twist_3(std::size_t, Args const&... args) const {
-				return twist_4(n - 1 - unroll_extra2, args...);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n - 1 - unroll_extra2,
-				mersenne_twister_engine
-			>::type twist_3(std::size_t i, Args const&... args) const {
-				return twist_3(
-					i + 1, args..., x_[i - (n - m)] ^ (((x_[i] & upper_mask) | (x_[i + 1] & lower_mask)) >> 1) ^ ((x_[i + 1] & 1) * a)
-					);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n - m,
-				mersenne_twister_engine
-			>::type twist_2(std::size_t, Args const&... args) const {
-				return twist_3(n - m, args...);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n - m,
-				mersenne_twister_engine
-			>::type twist_2(std::size_t i, Args const&... args) const {
-				return twist_2(
-					i + 1, args..., x_[i + m] ^ (((x_[i] & upper_mask) | (x_[i + 1] & lower_mask)) >> 1) ^ ((x_[i + 1] & 1) * a)
-					);
-			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) == n - m - unroll_extra1,
-				mersenne_twister_engine
-			>::type twist_1(std::size_t, Args const&... args) const {
-				return twist_2(n - m - unroll_extra1, args...);
+			static SPROUT_CONSTEXPR result_type twist_element(sprout::array<result_type, n> const& x, std::size_t i) {
+				return x[(i + m) % n]
+					^ (((x[i] & upper_mask) | (x[(i + 1) % n] & lower_mask)) >> 1)
+					^ ((x[(i + 1) % n] & 1) * a)
+					;
 			}
-			template<typename... Args>
-			SPROUT_CONSTEXPR typename std::enable_if<
-				sizeof...(Args) < n - m - unroll_extra1,
-				mersenne_twister_engine
-			>::type twist_1(std::size_t i, Args const&... args) const {
-				return twist_1(
-					i + 1, args..., x_[i + m] ^ (((x_[i] & upper_mask) | (x_[i + 1] & lower_mask)) >> 1) ^ ((x_[i + 1] & 1) * a)
-					);
+			// twists the words [first, last): they depend only on the words twisted before first
+			template<sprout::index_t... Indexes>
+			static SPROUT_CONSTEXPR sprout::array<result_type, n> twist_block(
+				sprout::array<result_type, n> const& x, std::size_t first, std::size_t last,
+				sprout::index_tuple<Indexes...>
+				)
+			{
+				return sprout::array<result_type, n>{{
+					(static_cast<std::size_t>(Indexes) >= first && static_cast<std::size_t>(Indexes) < last ? twist_element(x, Indexes) : x[Indexes])...
+					}};
+			}
+			static SPROUT_CONSTEXPR sprout::array<result_type, n> twist_from(sprout::array<result_type, n> const& x, std::size_t first = 0) {
+				return first >= n ? x
+					: twist_from(
+						twist_block(
+							x, first, n - first < n - m ? n : first + (n - m),
+							sprout::make_index_tuple<n>::make()
+							),
+						first + (n - m)
+						)
+					;
 			}
 			SPROUT_CONSTEXPR mersenne_twister_engine twist() const {
-				return twist_1(0);
+				return mersenne_twister_engine(twist_from(x_), 0, private_construct_t());
 			}
 			SPROUT_CXX14_CONSTEXPR void do_twist() {
 				UIntType const upper_mask = (~static_cast<UIntType>(0)) << r;
-- 
2.43.0


From f42440008ad8bd2911b83118372820332d5f4505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:56 +0000
Subject: [PATCH 104/185] fix: the constant interface of
 mersenne_twister_engine tempered the word wrongly

---
 sprout/random/mersenne_twister.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/random/mersenne_twister.hpp b/sprout/random/mersenne_twister.hpp
index 81526da..5402d58 100644
--- a/sprout/random/mersenne_twister.hpp
+++ b/sprout/random/mersenne_twister.hpp
@@ -275,13 +275,13 @@ namespace sprout {
 				return z ^ (z >> l);
 			}
 			SPROUT_CONSTEXPR result_type generate_impl_3(result_type z) const {
-				return z ^ generate_impl_4((z << t) & c);
+				return generate_impl_4(z ^ ((z << t) & c));
 			}
 			SPROUT_CONSTEXPR result_type generate_impl_2(result_type z) const {
-				return z ^ generate_impl_3((z << s) & b);
+				return generate_impl_3(z ^ ((z << s) & b));
 			}
 			SPROUT_CONSTEXPR result_type generate_impl_1(result_type z) const {
-				return z ^ generate_impl_2((z >> u) & d);
+				return generate_impl_2(z ^ ((z >> u) & d));
 			}
 			SPROUT_CONSTEXPR result_type generate_impl() const {
 				return generate_impl_1(x_[i_]);
-- 
2.43.0


From 0b4360a5d7729f3e048716376026a254d9ea04bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:55 +0000
Subject: [PATCH 105/185] fix: geometric_distribution::p() truncated the
 probability to an integer

---
 sprout/random/geometric_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/geometric_distribution.hpp b/sprout/random/geometric_distribution.hpp
index 2f0afad..18c2028 100644
--- a/sprout/random/geometric_distribution.hpp
+++ b/sprout/random/geometric_distribution.hpp
@@ -114,7 +114,7 @@ namespace sprout {
 				: p_(parm.p())
 				, log_1mp_(init_log_1mp(parm.p()))
 			{}
-			SPROUT_CONSTEXPR result_type p() const SPROUT_NOEXCEPT {
+			SPROUT_CONSTEXPR RealType p() const SPROUT_NOEXCEPT {
 				return p_;
 			}
 			SPROUT_CONSTEXPR result_type min() const SPROUT_NOEXCEPT {
-- 
2.43.0


From 482068b28a4a9a430c650a09c33791967ebafbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:55 +0000
Subject: [PATCH 106/185] fix: poisson_distribution read the table of log
 factorials out of range

---
 sprout/random/poisson_distribution.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/random/poisson_distribution.hpp b/sprout/random/poisson_distribution.hpp
index aceeb0f..80f538e 100644
--- a/sprout/random/poisson_distribution.hpp
+++ b/sprout/random/poisson_distribution.hpp
@@ -217,7 +217,7 @@ namespace sprout {
 					RealType k = sprout::floor((2 * ptrd_.a / us + ptrd_.b) * u + mean_ + 0.445);
 					v = v * ptrd_.inv_alpha / (ptrd_.a / (us * us) + ptrd_.b);
 					if ((k >= 10 && sprout::log(v * ptrd_.smu) <= (k + 0.5) * sprout::log(mean_ / k) - mean_ - log_sqrt_2pi() + k - (1 / 12. - (1 / 360. - 1 / (1260. * k * k)) / (k * k)) / k)
-						|| (k >= 0 && sprout::log(v) <= k * sprout::log(mean_) - mean_ - log_factorial(static_cast<IntType>(k)))
+						|| (k >= 0 && k < 10 && sprout::log(v) <= k * sprout::log(mean_) - mean_ - log_factorial(static_cast<IntType>(k)))
 						)
 					{
 						return static_cast<IntType>(k);
@@ -236,7 +236,7 @@ namespace sprout {
 			template<typename Engine, int D, typename Random, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_CONTINUE(D)>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> generate_3(Random const& rnd, RealType k, RealType v) const {
 				return (k >= 10 && sprout::log(v * ptrd_.smu) <= (k + 0.5) * sprout::log(mean_ / k) - mean_ - log_sqrt_2pi() + k - (1 / 12. - (1 / 360. - 1 / (1260. * k * k)) / (k * k)) / k)
-						|| (k >= 0 && sprout::log(v) <= k * sprout::log(mean_) - mean_ - log_factorial(static_cast<IntType>(k)))
+						|| (k >= 0 && k < 10 && sprout::log(v) <= k * sprout::log(mean_) - mean_ - log_factorial(static_cast<IntType>(k)))
 						? sprout::random::random_result<Engine, poisson_distribution>(static_cast<IntType>(k), sprout::random::next(rnd).engine(), *this)
 					: generate_1<Engine, D + 1>(rnd())
 					;
@@ -291,7 +291,7 @@ namespace sprout {
 			template<typename Engine, typename Random>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> generate_3(Random const& rnd, RealType k, RealType v) const {
 				return (k >= 10 && sprout::log(v * ptrd_.smu) <= (k + 0.5) * sprout::log(mean_ / k) - mean_ - log_sqrt_2pi() + k - (1 / 12. - (1 / 360. - 1 / (1260. * k * k)) / (k * k)) / k)
-						|| (k >= 0 && sprout::log(v) <= k * sprout::log(mean_) - mean_ - log_factorial(static_cast<IntType>(k)))
+						|| (k >= 0 && k < 10 && sprout::log(v) <= k * sprout::log(mean_) - mean_ - log_factorial(static_cast<IntType>(k)))
 						? sprout::random::random_result<Engine, poisson_distribution>(static_cast<IntType>(k), sprout::random::next(rnd).engine(), *this)
 					: generate_1<Engine>(rnd())
 					;
-- 
2.43.0


From 205de5c34c66da11aeafc604994f5c188df9bc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:55 +0000
Subject: [PATCH 107/185] fix: the constant interface of poisson_distribution
 did not scale v in the rejection step

---
 sprout/random/poisson_distribution.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/random/poisson_distribution.hpp b/sprout/random/poisson_distribution.hpp
index 80f538e..2f6d9a6 100644
--- a/sprout/random/poisson_distribution.hpp
+++ b/sprout/random/poisson_distribution.hpp
@@ -261,7 +261,7 @@ namespace sprout {
 			}
 			template<typename Engine, int D, typename Random, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_CONTINUE(D)>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> generate_1_3(Random const& rnd, RealType, RealType u) const {
-				return generate_2<Engine, D + 1>(rnd, sprout::random::result(rnd), ((u < 0) ? -0.5 : 0.5) - u, generate_us(((u < 0) ? -0.5 : 0.5) - u));
+				return generate_2<Engine, D + 1>(rnd, sprout::random::result(rnd) * ptrd_.v_r, ((u < 0) ? -0.5 : 0.5) - u, generate_us(((u < 0) ? -0.5 : 0.5) - u));
 			}
 			template<typename Engine, int D, typename Random, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_BREAK(D)>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> generate_1_3(Random const&, RealType, RealType) const {
@@ -308,7 +308,7 @@ namespace sprout {
 			}
 			template<typename Engine, typename Random>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> generate_1_3(Random const& rnd, RealType v, RealType u) const {
-				return generate_2<Engine>(rnd, sprout::random::result(rnd), ((u < 0) ? -0.5 : 0.5) - u, generate_us(((u < 0) ? -0.5 : 0.5) - u));
+				return generate_2<Engine>(rnd, sprout::random::result(rnd) * ptrd_.v_r, ((u < 0) ? -0.5 : 0.5) - u, generate_us(((u < 0) ? -0.5 : 0.5) - u));
 			}
 			template<typename Engine, typename Random>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, poisson_distribution> generate_1_2(Random const& rnd, RealType v) const {
-- 
2.43.0


From 83ee707af9cd6b4e05a9bf8ab0fce22676570575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:13 +0000
Subject: [PATCH 108/185] fix: variate_generator over a referenced engine did
 not compile: engine and distribution were passed in the wrong order

---
 sprout/random/variate_generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/variate_generator.hpp b/sprout/random/variate_generator.hpp
index 986bb17..e37978a 100644
--- a/sprout/random/variate_generator.hpp
+++ b/sprout/random/variate_generator.hpp
@@ -47,7 +47,7 @@ namespace sprout {
 			>::type random_result_type;
 		private:
 			static SPROUT_CONSTEXPR random_result_type call(variate_generator const& g, sprout::true_type) {
-				return random_result_type(g.distribution_(g.engine_), g.distribution_, g.engine_);
+				return random_result_type(g.distribution_(g.engine_), g.engine_, g.distribution_);
 			}
 			static SPROUT_CONSTEXPR random_result_type call(variate_generator const& g, sprout::false_type) {
 				return g.distribution_(sprout::as_const(g.engine_));
-- 
2.43.0


From daa6579b8e6da8890d99e7b9a9dfe7a5caf15b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:57 +0000
Subject: [PATCH 109/185] fix: binomial_distribution could not be called with a
 non-const engine (no sprout::math::abs for integers)

---
 sprout/random/binomial_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/binomial_distribution.hpp b/sprout/random/binomial_distribution.hpp
index dbc8aa6..ac73387 100644
--- a/sprout/random/binomial_distribution.hpp
+++ b/sprout/random/binomial_distribution.hpp
@@ -251,7 +251,7 @@ namespace sprout {
 						continue;
 					}
 					v = v * btrd_.alpha / (btrd_.a / (us * us) + btrd_.b);
-					RealType km = sprout::math::abs(k - m_);
+					RealType km = static_cast<RealType>(sprout::abs(k - m_));
 					if (km <= 15) {
 						RealType f = RealType(1);
 						if (m_ < k) {
-- 
2.43.0


From 896d1c777281928efdfde55f95fc376e28470df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:57 +0000
Subject: [PATCH 110/185] fix: the constant interface of binomial_distribution
 did not stop at the mode below which it recursed

---
 sprout/random/binomial_distribution.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/random/binomial_distribution.hpp b/sprout/random/binomial_distribution.hpp
index ac73387..36a7ecf 100644
--- a/sprout/random/binomial_distribution.hpp
+++ b/sprout/random/binomial_distribution.hpp
@@ -399,7 +399,7 @@ namespace sprout {
 			template<int D, typename Engine, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_CONTINUE(D)>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, binomial_distribution>
 			generate_7_2(Engine const& eng, RealType v, IntType k, RealType f, IntType i) const {
-				return i != k
+				return i != m_
 					? generate_7_2<D + 1>(eng, v * (btrd_.nr / (i + 1) - btrd_.r), k, f, i + 1)
 					: generate_7_3<D + 1>(eng, v, k, f)
 					;
@@ -585,7 +585,7 @@ namespace sprout {
 			template<typename Engine>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, binomial_distribution>
 			generate_7_2(Engine const& eng, RealType v, IntType k, RealType f, IntType i) const {
-				return i != k
+				return i != m_
 					? generate_7_2(eng, v * (btrd_.nr / (i + 1) - btrd_.r), k, f, i + 1)
 					: generate_7_3(eng, v, k, f)
 					;
-- 
2.43.0


From c0a761e9f37e9dc31fa1c17d42c39f178639e3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:57 +0000
Subject: [PATCH 111/185] fix: binomial_distribution::p() truncated the
 probability to an integer

---
 sprout/random/binomial_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/binomial_distribution.hpp b/sprout/random/binomial_distribution.hpp
index 36a7ecf..9901105 100644
--- a/sprout/random/binomial_distribution.hpp
+++ b/sprout/random/binomial_distribution.hpp
@@ -727,7 +727,7 @@ namespace sprout {
 			SPROUT_CONSTEXPR result_type t() const SPROUT_NOEXCEPT {
 				return t_;
 			}
-			SPROUT_CONSTEXPR result_type p() const SPROUT_NOEXCEPT {
+			SPROUT_CONSTEXPR RealType p() const SPROUT_NOEXCEPT {
 				return p_;
 			}
 			SPROUT_CONSTEXPR result_type min() const SPROUT_NOEXCEPT {
-- 
2.43.0


From a360225aa6cc78c31147e39ae21fc34b05c41152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:57 +0000
Subject: [PATCH 112/185] fix: binomial_distribution did not terminate when
 rounding left a residue beyond the last term of the inversion

---
 sprout/random/binomial_distribution.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/sprout/random/binomial_distribution.hpp b/sprout/random/binomial_distribution.hpp
index 9901105..41efba9 100644
--- a/sprout/random/binomial_distribution.hpp
+++ b/sprout/random/binomial_distribution.hpp
@@ -11,6 +11,7 @@
 #include <iosfwd>
 #include <istream>
 #include <sprout/config.hpp>
+#include <sprout/limits.hpp>
 #include <sprout/array/array.hpp>
 #include <sprout/cstdlib/abs.hpp>
 #include <sprout/math/abs.hpp>
@@ -223,7 +224,11 @@ namespace sprout {
 				while (u > r) {
 					u = u - r;
 					++x;
-					r = ((a / x) - s) * r;
+					RealType r1 = ((a / x) - s) * r;
+					if (r1 < sprout::numeric_limits<RealType>::epsilon() && r1 < r) {
+						break;
+					}
+					r = r1;
 				}
 				return x;
 			}
@@ -298,9 +303,17 @@ namespace sprout {
 			}
 			template<typename Engine>
 			SPROUT_CONSTEXPR sprout::random::random_result<Engine, binomial_distribution>
+			invert_5(Engine const& eng, RealType u, RealType q, RealType s, RealType a, RealType r, RealType r1, IntType x) const {
+				return r1 < sprout::numeric_limits<RealType>::epsilon() && r1 < r
+					? sprout::random::random_result<Engine, binomial_distribution>(x, eng, *this)
+					: invert_4(eng, u, q, s, a, r1, x)
+					;
+			}
+			template<typename Engine>
+			SPROUT_CONSTEXPR sprout::random::random_result<Engine, binomial_distribution>
 			invert_4(Engine const& eng, RealType u, RealType q, RealType s, RealType a, RealType r, IntType x = 0) const {
 				return u > r
-					? invert_4(eng, u - r, q, s, a, ((a / (x + 1)) - s) * r, x + 1)
+					? invert_5(eng, u - r, q, s, a, r, ((a / (x + 1)) - s) * r, x + 1)
 					: sprout::random::random_result<Engine, binomial_distribution>(x, eng, *this)
 					;
 			}
-- 
2.43.0


From 30cf27be699a55c1220d1957e4cd37a77bdf1942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:04 +0000
Subject: [PATCH 113/185] fix: a non-const normal_distribution called with a
 const engine neither advanced nor returned a random_result

---
 sprout/random/normal_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/normal_distribution.hpp b/sprout/random/normal_distribution.hpp
index 8739162..7824586 100644
--- a/sprout/random/normal_distribution.hpp
+++ b/sprout/random/normal_distribution.hpp
@@ -212,7 +212,7 @@ namespace sprout {
 				valid_ = false;
 			}
 			template<typename Engine>
-			SPROUT_CXX14_CONSTEXPR result_type operator()(Engine& eng) {
+			SPROUT_CXX14_CONSTEXPR typename std::enable_if<!std::is_const<Engine>::value, result_type>::type operator()(Engine& eng) {
 				if (!valid_) {
 					r1_ = static_cast<RealType>(sprout::random::uniform_01<RealType>()(eng));
 					r2_ = static_cast<RealType>(sprout::random::uniform_01<RealType>()(eng));
-- 
2.43.0


From 20ff8471ce732c8c461e79bf90b7890856eb6045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:04 +0000
Subject: [PATCH 114/185] fix: uniform_int_distribution ignored its minimum
 when the range is a power of the range of the engine

---
 sprout/random/uniform_int_distribution.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sprout/random/uniform_int_distribution.hpp b/sprout/random/uniform_int_distribution.hpp
index eb5f940..e885255 100644
--- a/sprout/random/uniform_int_distribution.hpp
+++ b/sprout/random/uniform_int_distribution.hpp
@@ -69,7 +69,7 @@ namespace sprout {
 						while (mult <= limit) {
 							result += static_cast<range_type>(sprout::random::detail::subtract<base_result>()(static_cast<base_result>(eng()), bmin) * mult);
 							if (mult * range_type(brange) == range - mult + 1) {
-								return result;
+								return sprout::random::detail::add<range_type, result_type>()(result, min_value);
 							}
 							mult *= range_type(brange) + range_type(1);
 						}
@@ -331,8 +331,9 @@ namespace sprout {
 			{
 				return mult * RangeType(brange) == range - mult + 1
 					? sprout::random::detail::generate_uniform_int_result<T, typename EngineResult::engine_type>{
-						static_cast<T>(
-							result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)
+						sprout::random::detail::add<RangeType, T>()(
+							static_cast<RangeType>(result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)),
+							min_value
 							),
 						sprout::random::next(rnd)
 						}
@@ -647,8 +648,9 @@ namespace sprout {
 			{
 				return mult * RangeType(brange) == range - mult + 1
 					? sprout::random::detail::generate_uniform_int_result<T, typename EngineResult::engine_type>{
-						static_cast<T>(
-							result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)
+						sprout::random::detail::add<RangeType, T>()(
+							static_cast<RangeType>(result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)),
+							min_value
 							),
 						sprout::random::next(rnd)
 						}
-- 
2.43.0


From e033501bbf63c45f2c63c8aa92b1bdd3cdbb65da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:04 +0000
Subject: [PATCH 115/185] fix: the constant interface of
 uniform_int_distribution did not compile for types narrower than int

---
 sprout/random/uniform_int_distribution.hpp | 64 ++++++++++++----------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/sprout/random/uniform_int_distribution.hpp b/sprout/random/uniform_int_distribution.hpp
index e885255..058b415 100644
--- a/sprout/random/uniform_int_distribution.hpp
+++ b/sprout/random/uniform_int_distribution.hpp
@@ -188,7 +188,7 @@ namespace sprout {
 				return sprout::random::detail::generate_uniform_int_true_3_1_1<D + 1>(
 					sprout::random::next(rnd), min_value, range,
 					bmin, brange, bucket_size,
-					sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) / bucket_size
+					static_cast<BaseUnsigned>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) / bucket_size)
 					);
 			}
 			template<int D, typename EngineResult, typename T, typename RangeType, typename BaseResult, typename BaseUnsigned, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_BREAK_DECL(D)>
@@ -210,11 +210,13 @@ namespace sprout {
 				return sprout::random::detail::generate_uniform_int_true_3_1<D + 1>(
 					eng(), min_value, range,
 					bmin, brange,
-					brange == sprout::numeric_limits<BaseUnsigned>::max()
-						? brange / (static_cast<BaseUnsigned>(range) + 1) + (
-							brange % (static_cast<BaseUnsigned>(range) + 1) == static_cast<BaseUnsigned>(range) ? 1 : 0
-							)
-						: (brange + 1) / (static_cast<BaseUnsigned>(range) + 1)
+					static_cast<BaseUnsigned>(
+						brange == sprout::numeric_limits<BaseUnsigned>::max()
+							? brange / (static_cast<BaseUnsigned>(range) + 1) + (
+								brange % (static_cast<BaseUnsigned>(range) + 1) == static_cast<BaseUnsigned>(range) ? 1 : 0
+								)
+							: (brange + 1) / (static_cast<BaseUnsigned>(range) + 1)
+						)
 					);
 			}
 			template<int D, typename Engine, typename T, typename RangeType, typename BaseResult, typename BaseUnsigned, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_BREAK(D)>
@@ -274,7 +276,7 @@ namespace sprout {
 					? sprout::random::detail::generate_uniform_int_true_2<D + 1>(eng, min_value, range, bmin, brange)
 					: sprout::random::detail::generate_uniform_int_true_2_4<D + 1>(
 						eng, min_value, range,
-						bmin, brange, result + (result_increment * mult), result_increment * mult
+						bmin, brange, static_cast<RangeType>(result + (result_increment * mult)), static_cast<RangeType>(result_increment * mult)
 						)
 					;
 			}
@@ -340,8 +342,8 @@ namespace sprout {
 					: sprout::random::detail::generate_uniform_int_true_2_1<D + 1>(
 						sprout::random::next(rnd), min_value, range,
 						bmin, brange, limit,
-						result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult),
-						mult * (RangeType(brange) + RangeType(1))
+						static_cast<RangeType>(result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)),
+						static_cast<RangeType>(mult * (RangeType(brange) + RangeType(1)))
 						)
 					;
 			}
@@ -401,11 +403,13 @@ namespace sprout {
 				return sprout::random::detail::generate_uniform_int_true_2_1<D + 1>(
 					eng, min_value, range,
 					bmin, brange,
-					range == sprout::numeric_limits<RangeType>::max()
-						? range / (RangeType(brange) + 1) + (
-							range % (RangeType(brange) + 1) == RangeType(brange) ? 1 : 0
-							)
-						: (range + 1) / (RangeType(brange) + 1)
+					static_cast<RangeType>(
+						range == sprout::numeric_limits<RangeType>::max()
+							? range / (RangeType(brange) + 1) + (
+								range % (RangeType(brange) + 1) == RangeType(brange) ? 1 : 0
+								)
+							: (range + 1) / (RangeType(brange) + 1)
+						)
 					);
 			}
 			template<int D, typename Engine, typename T, typename RangeType, typename BaseResult, typename BaseUnsigned, SPROUT_RECURSIVE_FUNCTION_TEMPLATE_BREAK_DECL(D)>
@@ -563,7 +567,7 @@ namespace sprout {
 				return sprout::random::detail::generate_uniform_int_true_3_1_1(
 					sprout::random::next(rnd), min_value, range,
 					bmin, brange, bucket_size,
-					sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) / bucket_size
+					static_cast<BaseUnsigned>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) / bucket_size)
 					);
 			}
 			template<typename Engine, typename T, typename RangeType, typename BaseResult, typename BaseUnsigned>
@@ -576,11 +580,13 @@ namespace sprout {
 				return sprout::random::detail::generate_uniform_int_true_3_1(
 					eng(), min_value, range,
 					bmin, brange,
-					brange == sprout::numeric_limits<BaseUnsigned>::max()
-						? brange / (static_cast<BaseUnsigned>(range) + 1) + (
-							brange % (static_cast<BaseUnsigned>(range) + 1) == static_cast<BaseUnsigned>(range) ? 1 : 0
-							)
-						: (brange + 1) / (static_cast<BaseUnsigned>(range) + 1)
+					static_cast<BaseUnsigned>(
+						brange == sprout::numeric_limits<BaseUnsigned>::max()
+							? brange / (static_cast<BaseUnsigned>(range) + 1) + (
+								brange % (static_cast<BaseUnsigned>(range) + 1) == static_cast<BaseUnsigned>(range) ? 1 : 0
+								)
+							: (brange + 1) / (static_cast<BaseUnsigned>(range) + 1)
+						)
 					);
 			}
 			template<typename Engine, typename T, typename RangeType, typename BaseResult, typename BaseUnsigned>
@@ -616,7 +622,7 @@ namespace sprout {
 					? sprout::random::detail::generate_uniform_int_true_2(eng, min_value, range, bmin, brange)
 					: sprout::random::detail::generate_uniform_int_true_2_4(
 						eng, min_value, range,
-						bmin, brange, result + (result_increment * mult), result_increment * mult
+						bmin, brange, static_cast<RangeType>(result + (result_increment * mult)), static_cast<RangeType>(result_increment * mult)
 						)
 					;
 			}
@@ -657,8 +663,8 @@ namespace sprout {
 					: sprout::random::detail::generate_uniform_int_true_2_1(
 						sprout::random::next(rnd), min_value, range,
 						bmin, brange, limit,
-						result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult),
-						mult * (RangeType(brange) + RangeType(1))
+						static_cast<RangeType>(result + static_cast<RangeType>(sprout::random::detail::subtract<BaseResult>()(sprout::random::result(rnd), bmin) * mult)),
+						static_cast<RangeType>(mult * (RangeType(brange) + RangeType(1)))
 						)
 					;
 			}
@@ -699,11 +705,13 @@ namespace sprout {
 				return sprout::random::detail::generate_uniform_int_true_2_1(
 					eng, min_value, range,
 					bmin, brange,
-					range == sprout::numeric_limits<RangeType>::max()
-						? range / (RangeType(brange) + 1) + (
-							range % (RangeType(brange) + 1) == RangeType(brange) ? 1 : 0
-							)
-						: (range + 1) / (RangeType(brange) + 1)
+					static_cast<RangeType>(
+						range == sprout::numeric_limits<RangeType>::max()
+							? range / (RangeType(brange) + 1) + (
+								range % (RangeType(brange) + 1) == RangeType(brange) ? 1 : 0
+								)
+							: (range + 1) / (RangeType(brange) + 1)
+						)
 					);
 			}
 			template<typename EngineResult, typename T, typename BaseResult>
-- 
2.43.0


From 33bda39b2020a9255086a5956f7c63554120cbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:51 +0000
Subject: [PATCH 116/185] fix: integer distributions over engines narrower than
 their type gave 2^32 - 1 instead of -1

---
 sprout/random/detail/signed_unsigned_tools.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/detail/signed_unsigned_tools.hpp b/sprout/random/detail/signed_unsigned_tools.hpp
index e5540c3..e469b4d 100644
--- a/sprout/random/detail/signed_unsigned_tools.hpp
+++ b/sprout/random/detail/signed_unsigned_tools.hpp
@@ -57,7 +57,7 @@ namespace sprout {
 			public:
 				SPROUT_CONSTEXPR result_type operator()(T1 x, T2 y) const {
 					return y >= 0 ? T2(x) + y
-						: x >= T1(-(y + 1)) ? T2(x - T1(-(y + 1)) - 1)
+						: x > T1(-(y + 1)) ? T2(x - T1(-(y + 1)) - 1)
 						: T2(x) + y
 						;
 				}
-- 
2.43.0


From d26b2860e93171197bb32f8aa9fe69fca7962cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:51 +0000
Subject: [PATCH 117/185] fix: uniform_smallint computed the range of the
 engine in the result type

---
 sprout/random/uniform_smallint.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/random/uniform_smallint.hpp b/sprout/random/uniform_smallint.hpp
index 30aca7e..1d89cb4 100644
--- a/sprout/random/uniform_smallint.hpp
+++ b/sprout/random/uniform_smallint.hpp
@@ -102,7 +102,7 @@ namespace sprout {
 				typedef typename std::make_unsigned<base_result>::type base_unsigned;
 				typedef typename std::make_unsigned<result_type>::type range_type;
 				range_type range = sprout::random::detail::subtract<result_type>()(max_, min_);
-				base_unsigned base_range = sprout::random::detail::subtract<result_type>()(eng.max(), eng.min());
+				base_unsigned base_range = sprout::random::detail::subtract<base_result>()(eng.max(), eng.min());
 				base_unsigned val = sprout::random::detail::subtract<base_result>()(static_cast<base_result>(eng()), eng.min());
 				return range >= base_range
 					? sprout::random::detail::add<range_type, result_type>()(static_cast<range_type>(val), min_)
@@ -177,7 +177,7 @@ namespace sprout {
 					eng,
 					eng(),
 					range_type(sprout::random::detail::subtract<result_type>()(max_, min_)),
-					base_unsigned(sprout::random::detail::subtract<result_type>()(eng.max(), eng.min()))
+					base_unsigned(sprout::random::detail::subtract<base_result>()(eng.max(), eng.min()))
 					);
 			}
 			template<typename Engine, typename Random, typename RangeType>
-- 
2.43.0


From 88f4013e57f02839b9915b0a949e64d4e7baabcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:51 +0000
Subject: [PATCH 118/185] fix: poisson_distribution::mean() truncated the mean
 to an integer

---
 sprout/random/poisson_distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/random/poisson_distribution.hpp b/sprout/random/poisson_distribution.hpp
index 2f6d9a6..9c2004e 100644
--- a/sprout/random/poisson_distribution.hpp
+++ b/sprout/random/poisson_distribution.hpp
@@ -344,7 +344,7 @@ namespace sprout {
 				, ptrd_(init_ptrd(parm.mean()))
 				, exp_mean_(init_exp_mean(parm.mean()))
 			{}
-			SPROUT_CONSTEXPR result_type mean() const SPROUT_NOEXCEPT {
+			SPROUT_CONSTEXPR RealType mean() const SPROUT_NOEXCEPT {
 				return mean_;
 			}
 			SPROUT_CONSTEXPR result_type min() const SPROUT_NOEXCEPT {
-- 
2.43.0


From 14792573ae51081f3ec87469df590b9a7bee4193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 119/185] fix: sub, csub and sub_copy of a whole container were
 ambiguous

---
 sprout/sub_array/sub.hpp | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/sprout/sub_array/sub.hpp b/sprout/sub_array/sub.hpp
index a5783df..8097910 100644
--- a/sprout/sub_array/sub.hpp
+++ b/sprout/sub_array/sub.hpp
@@ -137,12 +137,6 @@ namespace sprout {
 		return sprout::sub_window(arr, to_first);
 	}
 
-	template<typename Container>
-	inline SPROUT_CONSTEXPR typename std::enable_if<!sprout::is_sub_array<Container>::value, sprout::sub_array<Container&> >::type
-	sub(Container& arr) {
-		return sprout::sub(arr, sprout::begin(arr), sprout::end(arr));
-	}
-
 	//
 	// csub
 	//
@@ -224,12 +218,6 @@ namespace sprout {
 		return sprout::csub_window(arr, to_first);
 	}
 
-	template<typename Container>
-	inline SPROUT_CONSTEXPR typename std::enable_if<!sprout::is_sub_array<Container>::value, sprout::sub_array<Container const&> >::type
-	csub(Container const& arr) {
-		return sprout::csub(arr, sprout::begin(arr), sprout::end(arr));
-	}
-
 	//
 	// sub_copy
 	//
@@ -310,12 +298,6 @@ namespace sprout {
 	{
 		return sprout::sub_window_copy(arr, to_first);
 	}
-
-	template<typename Container>
-	inline SPROUT_CONSTEXPR typename std::enable_if<!sprout::is_sub_array<Container>::value, sprout::sub_array<Container> >::type
-	sub_copy(Container const& arr) {
-		return sprout::sub_copy(arr, sprout::begin(arr), sprout::end(arr));
-	}
 }	// namespace sprout
 
 #endif	// #ifndef SPROUT_SUB_ARRAY_SUB_HPP
-- 
2.43.0


From ab933d1d1407bb364eb8d7f275de65102c52041d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:54 +0000
Subject: [PATCH 120/185] fix: push and pop of a sub_array of a reference wrote
 to an array of containers or did not compile

---
 sprout/sub_array/sub_array.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sprout/sub_array/sub_array.hpp b/sprout/sub_array/sub_array.hpp
index 4fbf582..aebfc9f 100644
--- a/sprout/sub_array/sub_array.hpp
+++ b/sprout/sub_array/sub_array.hpp
@@ -470,30 +470,30 @@ namespace sprout {
 		}
 
 		SPROUT_CXX14_CONSTEXPR void push_back(value_type const& x) {
-			impl_.array_[impl_.to_last_] = x;
+			get_internal()[impl_.to_last_] = x;
 			++impl_.to_last_;
 		}
 		SPROUT_CXX14_CONSTEXPR void push_back(value_type&& x) {
-			impl_.array_[impl_.to_last_] = sprout::move(x);
+			get_internal()[impl_.to_last_] = sprout::move(x);
 			++impl_.to_last_;
 		}
 		SPROUT_CXX14_CONSTEXPR void pop_back() {
-			impl_.array_[impl_.to_last_ - 1] = value_type();
+			get_internal()[impl_.to_last_ - 1] = value_type();
 			--impl_.to_last_;
 		}
 		SPROUT_CXX14_CONSTEXPR void drop_back() {
 			--impl_.to_last_;
 		}
 		SPROUT_CXX14_CONSTEXPR void push_front(value_type const& x) {
-			impl_.array_[impl_.to_first_ - 1] = x;
+			get_internal()[impl_.to_first_ - 1] = x;
 			--impl_.to_first_;
 		}
 		SPROUT_CXX14_CONSTEXPR void push_front(value_type&& x) {
-			impl_.array_[impl_.to_first_ - 1] = sprout::move(x);
+			get_internal()[impl_.to_first_ - 1] = sprout::move(x);
 			--impl_.to_first_;
 		}
 		SPROUT_CXX14_CONSTEXPR void pop_front() {
-			impl_.array_[impl_.to_first_] = value_type();
+			get_internal()[impl_.to_first_] = value_type();
 			++impl_.to_first_;
 		}
 		SPROUT_CXX14_CONSTEXPR void drop_front() {
-- 
2.43.0


From 063115fb92a5f82780e64ebfae14cc219d2cb96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:54 +0000
Subject: [PATCH 121/185] fix: window and offset of a const sub_array of a
 reference did not compile

---
 sprout/sub_array/sub_array.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/sub_array/sub_array.hpp b/sprout/sub_array/sub_array.hpp
index aebfc9f..9a3a8d2 100644
--- a/sprout/sub_array/sub_array.hpp
+++ b/sprout/sub_array/sub_array.hpp
@@ -426,10 +426,10 @@ namespace sprout {
 			return *this;
 		}
 		SPROUT_CONSTEXPR sub_array window(difference_type to_first = 0) const {
-			return sub_array(impl_.array_, to_first, size());
+			return sub_array(impl_type::template to_param<Container>(impl_.array_), to_first, size());
 		}
 		SPROUT_CONSTEXPR sub_array window(difference_type to_first, difference_type to_last) const {
-			return sub_array(impl_.array_, to_first, to_last);
+			return sub_array(impl_type::template to_param<Container>(impl_.array_), to_first, to_last);
 		}
 		SPROUT_CONSTEXPR sub_array cwindow(difference_type to_first = 0) const {
 			return window(to_first);
@@ -444,7 +444,7 @@ namespace sprout {
 			return *this;
 		}
 		SPROUT_CONSTEXPR sub_array offset(difference_type from_begin = 0, difference_type from_end = 0) const {
-			return sub_array(impl_.array_, impl_.to_first_ + from_begin, impl_.to_last_ + from_end);
+			return sub_array(impl_type::template to_param<Container>(impl_.array_), impl_.to_first_ + from_begin, impl_.to_last_ + from_end);
 		}
 		SPROUT_CONSTEXPR sub_array coffset(difference_type from_begin = 0, difference_type from_end = 0) const {
 			return offset(from_begin, from_end);
-- 
2.43.0


From bb78422353c0b24129fb90a17fc3bf9c409979a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:54 +0000
Subject: [PATCH 122/185] fix: sub with a single iterator did not compile for
 mutable containers

---
 sprout/sub_array/sub.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sprout/sub_array/sub.hpp b/sprout/sub_array/sub.hpp
index 8097910..45b82c8 100644
--- a/sprout/sub_array/sub.hpp
+++ b/sprout/sub_array/sub.hpp
@@ -37,7 +37,7 @@ namespace sprout {
 		typename sprout::container_traits<sprout::sub_array<Container&> >::const_iterator first
 		)
 	{
-		return sprout::sub(arr, first, sprout::end(arr));
+		return sprout::sub(arr, first, sprout::cend(arr));
 	}
 	template<typename Container>
 	inline SPROUT_CONSTEXPR typename std::enable_if<!sprout::is_sub_array<Container>::value, sprout::sub_array<Container&> >::type
@@ -76,7 +76,7 @@ namespace sprout {
 		typename sprout::container_traits<sprout::sub_array<Container const&> >::const_iterator first
 		)
 	{
-		return sprout::sub(arr, first, sprout::end(arr));
+		return sprout::sub(arr, first, sprout::cend(arr));
 	}
 	template<typename Container>
 	inline SPROUT_CONSTEXPR typename std::enable_if<!sprout::is_sub_array<Container>::value, sprout::sub_array<Container const&> >::type
@@ -115,7 +115,7 @@ namespace sprout {
 		typename sprout::container_traits<Container>::const_iterator first
 		)
 	{
-		return sprout::sub(arr, first, sprout::end(arr));
+		return sprout::sub(arr, first, sprout::cend(arr));
 	}
 	template<typename Container>
 	inline SPROUT_CONSTEXPR typename std::enable_if<sprout::is_sub_array<Container>::value, Container>::type
@@ -157,7 +157,7 @@ namespace sprout {
 		typename sprout::container_traits<sprout::sub_array<Container const&> >::const_iterator first
 		)
 	{
-		return sprout::csub(arr, first, sprout::end(arr));
+		return sprout::csub(arr, first, sprout::cend(arr));
 	}
 	template<typename Container>
 	inline SPROUT_CONSTEXPR typename std::enable_if<!sprout::is_sub_array<Container>::value, sprout::sub_array<Container const&> >::type
@@ -196,7 +196,7 @@ namespace sprout {
 		typename sprout::container_traits<Container>::const_iterator first
 		)
 	{
-		return sprout::csub(arr, first, sprout::end(arr));
+		return sprout::csub(arr, first, sprout::cend(arr));
 	}
 	template<typename Container>
 	inline SPROUT_CONSTEXPR typename std::enable_if<sprout::is_sub_array<Container>::value, sprout::sub_array<typename Container::internal_type const&> >::type
@@ -238,7 +238,7 @@ namespace sprout {
 		typename sprout::container_traits<Container>::const_iterator first
 		)
 	{
-		return sprout::sub_copy(arr, first, sprout::end(arr));
+		return sprout::sub_copy(arr, first, sprout::cend(arr));
 	}
 	template<typename Container>
 	inline SPROUT_CONSTEXPR typename std::enable_if<!sprout::is_sub_array<Container>::value, sprout::sub_array<Container> >::type
@@ -277,7 +277,7 @@ namespace sprout {
 		typename sprout::container_traits<Container>::const_iterator first
 		)
 	{
-		return sprout::sub_copy(arr, first, sprout::end(arr));
+		return sprout::sub_copy(arr, first, sprout::cend(arr));
 	}
 	template<typename Container>
 	inline SPROUT_CONSTEXPR typename std::enable_if<sprout::is_sub_array<Container>::value, sprout::sub_array<typename Container::internal_type> >::type
-- 
2.43.0


From e071de52db56b00eb6c4946ae382b13d1b28d648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:12 +0000
Subject: [PATCH 123/185] fix: index_of of a mutable container did not convert
 its iterator to a const one

---
 sprout/container/detail/range_index_of.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/container/detail/range_index_of.hpp b/sprout/container/detail/range_index_of.hpp
index 332363b..087f662 100644
--- a/sprout/container/detail/range_index_of.hpp
+++ b/sprout/container/detail/range_index_of.hpp
@@ -71,7 +71,7 @@ namespace sprout {
 			typename sprout::container_traits<Container>::size_type
 		>::type
 		range_index_of_impl(Container& cont, typename sprout::container_traits<Container>::iterator p) {
-			typedef typename sprout::container_traits<Container>::iterator type;
+			typedef typename sprout::container_traits<Container const>::iterator type;
 			return sprout::index_of(sprout::as_const(cont), sprout::const_iterator_cast<type>(p));
 		}
 		template<typename Container>
-- 
2.43.0


From b8dbd949efae2fe3c40726037812828cb99a7a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:33 +0000
Subject: [PATCH 124/185] fix: operator== of sub_array ignored the length of
 the right operand and read past it

---
 sprout/sub_array/comparison.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/sub_array/comparison.hpp b/sprout/sub_array/comparison.hpp
index 3d59886..2d31b8e 100644
--- a/sprout/sub_array/comparison.hpp
+++ b/sprout/sub_array/comparison.hpp
@@ -26,7 +26,7 @@ namespace sprout {
 	template<typename Container>
 	inline SPROUT_CONSTEXPR bool
 	operator==(sprout::sub_array<Container> const& lhs, sprout::sub_array<Container> const& rhs) {
-		return sprout::equal(sprout::begin(lhs), sprout::end(lhs), sprout::begin(rhs));
+		return sprout::equal(sprout::begin(lhs), sprout::end(lhs), sprout::begin(rhs), sprout::end(rhs));
 	}
 	template<typename Container>
 	inline SPROUT_CONSTEXPR bool
-- 
2.43.0


From d9ae49eee25673a7e6332aa8bf903e752e375bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:47 +0000
Subject: [PATCH 125/185] fix: make_clamp_iterator without a comparison could
 not be called

---
 sprout/iterator/clamp_iterator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/iterator/clamp_iterator.hpp b/sprout/iterator/clamp_iterator.hpp
index 418d065..8612ee7 100644
--- a/sprout/iterator/clamp_iterator.hpp
+++ b/sprout/iterator/clamp_iterator.hpp
@@ -196,15 +196,15 @@ namespace sprout {
 	{
 		return sprout::clamp_iterator<Iterator, Compare>(it, low, up, comp);
 	}
-	template<typename Iterator, typename Compare>
-	inline SPROUT_CONSTEXPR sprout::clamp_iterator<Iterator, Compare>
+	template<typename Iterator>
+	inline SPROUT_CONSTEXPR sprout::clamp_iterator<Iterator>
 	make_clamp_iterator(
 		Iterator it,
 		typename std::iterator_traits<Iterator>::value_type const& low,
 		typename std::iterator_traits<Iterator>::value_type const& up
 		)
 	{
-		return sprout::clamp_iterator<Iterator, Compare>(it, low, up);
+		return sprout::clamp_iterator<Iterator>(it, low, up);
 	}
 
 	//
-- 
2.43.0


From b1c2a58758808e157f9b99ff49127bc475bfe333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:20 +0000
Subject: [PATCH 126/185] fix: swap of several iterator adaptors called itself
 with the wrong arguments and did not compile

---
 sprout/iterator/indexed_iterator.hpp |  8 ++++----
 sprout/iterator/move_iterator.hpp    |  4 ++--
 sprout/iterator/next_iterator.hpp    |  8 ++++----
 sprout/iterator/remake_iterator.hpp  | 24 ++++++++++++------------
 sprout/iterator/reverse_iterator.hpp |  4 ++--
 sprout/iterator/step_iterator.hpp    | 22 +++++++++++-----------
 sprout/iterator/valued_iterator.hpp  |  8 ++++----
 7 files changed, 39 insertions(+), 39 deletions(-)

diff --git a/sprout/iterator/indexed_iterator.hpp b/sprout/iterator/indexed_iterator.hpp
index ac56dd5..dd1f1dc 100644
--- a/sprout/iterator/indexed_iterator.hpp
+++ b/sprout/iterator/indexed_iterator.hpp
@@ -121,12 +121,12 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(indexed_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
-			&& SPROUT_NOEXCEPT_EXPR(swap(idx, other.idx))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(idx, other.idx))
 			)
 		{
-			swap(current, other.current);
-			swap(idx, other.idx);
+			sprout::swap(current, other.current);
+			sprout::swap(idx, other.idx);
 		}
 	};
 
diff --git a/sprout/iterator/move_iterator.hpp b/sprout/iterator/move_iterator.hpp
index 826af24..9df2cc5 100644
--- a/sprout/iterator/move_iterator.hpp
+++ b/sprout/iterator/move_iterator.hpp
@@ -123,10 +123,10 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(move_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
 			)
 		{
-			swap(current, other.current);
+			sprout::swap(current, other.current);
 		}
 	};
 
diff --git a/sprout/iterator/next_iterator.hpp b/sprout/iterator/next_iterator.hpp
index 9addf3f..3ac7e83 100644
--- a/sprout/iterator/next_iterator.hpp
+++ b/sprout/iterator/next_iterator.hpp
@@ -90,12 +90,12 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(next_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(holder_, other.holder_))
-			&& SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(holder_, other.holder_))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
 			)
 		{
-			swap(holder_, other.holder_);
-			swap(current, other.current);
+			sprout::swap(holder_, other.holder_);
+			sprout::swap(current, other.current);
 		}
 	};
 
diff --git a/sprout/iterator/remake_iterator.hpp b/sprout/iterator/remake_iterator.hpp
index af576e1..3feeba2 100644
--- a/sprout/iterator/remake_iterator.hpp
+++ b/sprout/iterator/remake_iterator.hpp
@@ -202,20 +202,20 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(remake_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
-			&& SPROUT_NOEXCEPT_EXPR(swap(current2, other.current2))
-			&& SPROUT_NOEXCEPT_EXPR(swap(fst, other.fst))
-			&& SPROUT_NOEXCEPT_EXPR(swap(lst_, other.lst_))
-			&& SPROUT_NOEXCEPT_EXPR(swap(begin_off, other.begin_off))
-			&& SPROUT_NOEXCEPT_EXPR(swap(end_off, other.end_off))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(current2, other.current2))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(fst, other.fst))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(lst_, other.lst_))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(begin_off, other.begin_off))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(end_off, other.end_off))
 			)
 		{
-			swap(current, other.current);
-			swap(current2, other.current2);
-			swap(fst, other.fst);
-			swap(lst_, other.lst_);
-			swap(begin_off, other.begin_off);
-			swap(end_off, other.end_off);
+			sprout::swap(current, other.current);
+			sprout::swap(current2, other.current2);
+			sprout::swap(fst, other.fst);
+			sprout::swap(lst_, other.lst_);
+			sprout::swap(begin_off, other.begin_off);
+			sprout::swap(end_off, other.end_off);
 		}
 	};
 
diff --git a/sprout/iterator/reverse_iterator.hpp b/sprout/iterator/reverse_iterator.hpp
index 2990599..0d6c427 100644
--- a/sprout/iterator/reverse_iterator.hpp
+++ b/sprout/iterator/reverse_iterator.hpp
@@ -109,10 +109,10 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(reverse_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
 			)
 		{
-			swap(current, other.current);
+			sprout::swap(current, other.current);
 		}
 	};
 
diff --git a/sprout/iterator/step_iterator.hpp b/sprout/iterator/step_iterator.hpp
index 8e8a39c..0813a21 100644
--- a/sprout/iterator/step_iterator.hpp
+++ b/sprout/iterator/step_iterator.hpp
@@ -155,19 +155,19 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(step_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
-			&& SPROUT_NOEXCEPT_EXPR(swap(last, other.last))
-			&& SPROUT_NOEXCEPT_EXPR(swap(wid, other.wid))
-			&& SPROUT_NOEXCEPT_EXPR(swap(back, other.back))
-			&& SPROUT_NOEXCEPT_EXPR(swap(wid, other.wid))
-			&& SPROUT_NOEXCEPT_EXPR(swap(is_last, other.is_last))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(last, other.last))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(wid, other.wid))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(back, other.back))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(wid, other.wid))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(is_last, other.is_last))
 			)
 		{
-			swap(current, other.current);
-			swap(last, other.last);
-			swap(wid, other.wid);
-			swap(back, other.back);
-			swap(is_last, other.is_last);
+			sprout::swap(current, other.current);
+			sprout::swap(last, other.last);
+			sprout::swap(wid, other.wid);
+			sprout::swap(back, other.back);
+			sprout::swap(is_last, other.is_last);
 		}
 	};
 
diff --git a/sprout/iterator/valued_iterator.hpp b/sprout/iterator/valued_iterator.hpp
index 92e6fc6..70e5cbc 100644
--- a/sprout/iterator/valued_iterator.hpp
+++ b/sprout/iterator/valued_iterator.hpp
@@ -129,12 +129,12 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void swap(valued_iterator& other)
 		SPROUT_NOEXCEPT_IF(
-			SPROUT_NOEXCEPT_EXPR(swap(current, other.current))
-			&& SPROUT_NOEXCEPT_EXPR(swap(holder, other.holder))
+			SPROUT_NOEXCEPT_EXPR(sprout::swap(current, other.current))
+			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(holder, other.holder))
 			)
 		{
-			swap(current, other.current);
-			swap(holder, other.holder);
+			sprout::swap(current, other.current);
+			sprout::swap(holder, other.holder);
 		}
 	};
 
-- 
2.43.0


From 54acb42fd7bb002f00641c8e8e452fed75c7c5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:37 +0000
Subject: [PATCH 127/185] fix: step_iterator never reached an end made from the
 end of the range and could not move back from its end

---
 sprout/iterator/step_iterator.hpp | 51 +++++++++++++------------------
 sprout/range/adaptor/steps.hpp    |  8 ++---
 2 files changed, 25 insertions(+), 34 deletions(-)

diff --git a/sprout/iterator/step_iterator.hpp b/sprout/iterator/step_iterator.hpp
index 0813a21..b33e9f0 100644
--- a/sprout/iterator/step_iterator.hpp
+++ b/sprout/iterator/step_iterator.hpp
@@ -34,14 +34,19 @@ namespace sprout {
 		typedef typename base_type::difference_type difference_type;
 		typedef typename base_type::pointer pointer;
 		typedef typename base_type::reference reference;
+	private:
+		template<typename U>
+		friend class step_iterator;
 	private:
 		static SPROUT_CONSTEXPR iterator_type get_back(iterator_type it, difference_type wid, iterator_type last) {
-			return sprout::next(it, (sprout::distance(it, last) - 1) / wid * wid);
+			return it == last ? last
+				: sprout::next(it, (sprout::distance(it, last) - 1) / wid * wid)
+				;
 		}
 		static SPROUT_CONSTEXPR difference_type next_distance(step_iterator const& it, difference_type n) {
-			return n >= 0 ? NS_SSCRISK_CEL_OR_SPROUT::min(sprout::distance(it.current, it.back), n * it.wid)
-				: it.is_last ? 0
-				: NS_SSCRISK_CEL_OR_SPROUT::max(-sprout::distance(it.current, it.back), n * it.wid)
+			return n >= 0 ? NS_SSCRISK_CEL_OR_SPROUT::min<difference_type>(sprout::distance(it.current, it.last), n * it.wid)
+				: it.is_end() && it.back != it.last ? (n + 1) * it.wid - sprout::distance(it.back, it.last)
+				: n * it.wid
 				;
 		}
 	protected:
@@ -50,29 +55,28 @@ namespace sprout {
 		difference_type wid;
 	private:
 		iterator_type back;
-		bool is_last;
 	private:
 		SPROUT_CONSTEXPR step_iterator(step_iterator const& other, difference_type n)
 			: current(sprout::next(other.current, next_distance(other, n))), last(other.last), wid(other.wid)
-			, back(other.back), is_last(next_distance(other, n) == 0)
+			, back(other.back)
 		{}
 	public:
 		SPROUT_CONSTEXPR step_iterator()
 			: current(), last(), wid(1)
-			, back(), is_last()
+			, back()
 		{}
 		SPROUT_CONSTEXPR step_iterator(step_iterator const& other)
 			: current(other.current), last(other.last), wid(other.wid)
-			, back(other.back), is_last(other.is_last)
+			, back(other.back)
 		{}
 		explicit SPROUT_CONSTEXPR step_iterator(iterator_type it, difference_type wid = 1, iterator_type last = iterator_type())
 			: current(it), last(last), wid(wid)
-			, back(get_back(it, wid, last)), is_last(it == last)
+			, back(get_back(it, wid, last))
 		{}
 		template<typename U>
 		SPROUT_CONSTEXPR step_iterator(step_iterator<U> const& it)
 			: current(it.base()), last(it.end()), wid(it.width())
-			, back(get_back(it.base(), it.width(), it.end())), is_last(it.is_end())
+			, back(it.back)
 		{}
 		template<typename U>
 		SPROUT_CXX14_CONSTEXPR step_iterator& operator=(step_iterator<U> const& it) {
@@ -90,7 +94,7 @@ namespace sprout {
 			return last;
 		}
 		SPROUT_CONSTEXPR bool is_end() const {
-			return is_last;
+			return current == last;
 		}
 		SPROUT_CONSTEXPR reference operator*() const {
 			return *current;
@@ -99,33 +103,21 @@ namespace sprout {
 			return &*current;
 		}
 		SPROUT_CXX14_CONSTEXPR step_iterator& operator++() {
-			if (current == back) {
-				is_last = true;
-			}
 			current += next_distance(*this, 1);
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR step_iterator operator++(int) {
 			step_iterator result(*this);
-			if (current == back) {
-				is_last = true;
-			}
 			current += next_distance(*this, 1);
 			return result;
 		}
 		SPROUT_CXX14_CONSTEXPR step_iterator& operator--() {
 			current += next_distance(*this, -1);
-			if (current != back) {
-				is_last = false;
-			}
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR step_iterator operator--(int) {
 			step_iterator temp(*this);
 			current += next_distance(*this, -1);
-			if (current != back) {
-				is_last = false;
-			}
 			return temp;
 		}
 		SPROUT_CONSTEXPR step_iterator operator+(difference_type n) const {
@@ -145,7 +137,7 @@ namespace sprout {
 			return *this;
 		}
 		SPROUT_CONSTEXPR reference operator[](difference_type n) const {
-			return *(current + n * wid);
+			return *(*this + n);
 		}
 		SPROUT_CONSTEXPR step_iterator next() const {
 			return step_iterator(*this, 1);
@@ -159,22 +151,19 @@ namespace sprout {
 			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(last, other.last))
 			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(wid, other.wid))
 			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(back, other.back))
-			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(wid, other.wid))
-			&& SPROUT_NOEXCEPT_EXPR(sprout::swap(is_last, other.is_last))
 			)
 		{
 			sprout::swap(current, other.current);
 			sprout::swap(last, other.last);
 			sprout::swap(wid, other.wid);
 			sprout::swap(back, other.back);
-			sprout::swap(is_last, other.is_last);
 		}
 	};
 
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
 	operator==(sprout::step_iterator<Iterator1> const& lhs, sprout::step_iterator<Iterator2> const& rhs) {
-		return lhs.base() == rhs.base() && lhs.is_end() == rhs.is_end();
+		return lhs.base() == rhs.base();
 	}
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
@@ -184,7 +173,7 @@ namespace sprout {
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
 	operator<(sprout::step_iterator<Iterator1> const& lhs, sprout::step_iterator<Iterator2> const& rhs) {
-		return lhs.base() < rhs.base() || (lhs.base() == rhs.base() && !lhs.is_end() && rhs.is_end());
+		return lhs.base() < rhs.base();
 	}
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
@@ -204,7 +193,9 @@ namespace sprout {
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR decltype(std::declval<Iterator1>() - std::declval<Iterator2>())
 	operator-(sprout::step_iterator<Iterator1> const& lhs, sprout::step_iterator<Iterator2> const& rhs) {
-		return (lhs.base() - rhs.base()) / lhs.width() + (lhs.is_end() ? 1 : 0) - (rhs.is_end() ? 1 : 0);
+		return lhs.base() < rhs.base() ? -((rhs.base() - lhs.base() + lhs.width() - 1) / lhs.width())
+			: (lhs.base() - rhs.base() + lhs.width() - 1) / lhs.width()
+			;
 	}
 	template<typename Iterator>
 	inline SPROUT_CONSTEXPR sprout::step_iterator<Iterator>
diff --git a/sprout/range/adaptor/steps.hpp b/sprout/range/adaptor/steps.hpp
index 9e4e90d..9606d55 100644
--- a/sprout/range/adaptor/steps.hpp
+++ b/sprout/range/adaptor/steps.hpp
@@ -46,19 +46,19 @@ namespace sprout {
 			explicit SPROUT_CONSTEXPR steps_range(range_type& range)
 				: base_type(
 					iterator(sprout::begin(range), 1, sprout::end(range)),
-					iterator(sprout::end(range), 1, sprout::end(range))
+					iterator(sprout::begin(range), 1, sprout::end(range)) + sprout::size(range)
 					)
 			{}
 			SPROUT_CONSTEXPR steps_range(difference_type width, range_type& range)
 				: base_type(
 					iterator(sprout::begin(range), width, sprout::end(range)),
-					iterator(sprout::end(range), width, sprout::end(range))
+					iterator(sprout::begin(range), width, sprout::end(range)) + sprout::size(range)
 					)
 			{}
 			SPROUT_CONSTEXPR steps_range(difference_type width, difference_type init, range_type& range)
 				: base_type(
-					iterator(sprout::next(sprout::begin(range), NS_SSCRISK_CEL_OR_SPROUT::min(init, sprout::size(range))), width, sprout::end(range)),
-					iterator(sprout::end(range), width, sprout::end(range))
+					iterator(sprout::next(sprout::begin(range), NS_SSCRISK_CEL_OR_SPROUT::min<difference_type>(init, sprout::size(range))), width, sprout::end(range)),
+					iterator(sprout::next(sprout::begin(range), NS_SSCRISK_CEL_OR_SPROUT::min<difference_type>(init, sprout::size(range))), width, sprout::end(range)) + sprout::size(range)
 					)
 			{}
 		};
-- 
2.43.0


From de6ad8f72b859bf4a98abc473727e99eae5e2000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:59 +0000
Subject: [PATCH 128/185] fix: incrementing a while_iterator to its end
 dereferenced the end

---
 sprout/iterator/while_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/iterator/while_iterator.hpp b/sprout/iterator/while_iterator.hpp
index 27f0530..c8834c1 100644
--- a/sprout/iterator/while_iterator.hpp
+++ b/sprout/iterator/while_iterator.hpp
@@ -68,7 +68,7 @@ namespace sprout {
 		Predicate pred;
 	private:
 		SPROUT_CXX14_CONSTEXPR void satisfy_predicate() {
-			if (!pred(*current)) {
+			if (current != last && !pred(*current)) {
 				current = last;
 			}
 		}
-- 
2.43.0


From 5c48c697556c642e08f78c4575810bb137ea8873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:59 +0000
Subject: [PATCH 129/185] fix: adjacent_filter_iterator and unique_iterator
 dropped the first run of elements

---
 sprout/iterator/adjacent_filter_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/iterator/adjacent_filter_iterator.hpp b/sprout/iterator/adjacent_filter_iterator.hpp
index 52ee63e..51f88d8 100644
--- a/sprout/iterator/adjacent_filter_iterator.hpp
+++ b/sprout/iterator/adjacent_filter_iterator.hpp
@@ -76,7 +76,7 @@ namespace sprout {
 		{}
 		adjacent_filter_iterator(adjacent_filter_iterator const&) = default;
 		SPROUT_CONSTEXPR adjacent_filter_iterator(Predicate pred, iterator_type it, iterator_type last = iterator_type())
-			: current(find_next(it, last, pred))
+			: current(it)
 			, last(last)
 			, pred(pred)
 		{}
-- 
2.43.0


From 8f23f52503d88a4f7781ad662c20865993e62304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:59 +0000
Subject: [PATCH 130/185] fix: reverse_iterator compared in the order of the
 underlying iterators

---
 sprout/iterator/reverse_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/iterator/reverse_iterator.hpp b/sprout/iterator/reverse_iterator.hpp
index 0d6c427..edfbbc5 100644
--- a/sprout/iterator/reverse_iterator.hpp
+++ b/sprout/iterator/reverse_iterator.hpp
@@ -129,7 +129,7 @@ namespace sprout {
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
 	operator<(sprout::reverse_iterator<Iterator1> const& lhs, sprout::reverse_iterator<Iterator2> const& rhs) {
-		return lhs.base() < rhs.base();
+		return rhs.base() < lhs.base();
 	}
 	template<typename Iterator1, typename Iterator2>
 	inline SPROUT_CONSTEXPR bool
-- 
2.43.0


From 61021ce0733d078bd9b56a376421a55433529f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:59 +0000
Subject: [PATCH 131/185] fix: difference of joint_iterators had the wrong sign
 when the left one was in the left range

---
 sprout/iterator/joint_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/iterator/joint_iterator.hpp b/sprout/iterator/joint_iterator.hpp
index 57702a1..6d506bc 100644
--- a/sprout/iterator/joint_iterator.hpp
+++ b/sprout/iterator/joint_iterator.hpp
@@ -271,7 +271,7 @@ namespace sprout {
 	{
 		return lhs.is_in_left() && rhs.is_in_left() ? lhs.base() - rhs.base()
 			: !lhs.is_in_left() && !rhs.is_in_left() ? lhs.base2() - rhs.base2()
-			: lhs.is_in_left() ? sprout::limited::plus(lhs.left_end() - lhs.base(), rhs.base2() - rhs.right_begin())
+			: lhs.is_in_left() ? -sprout::limited::plus(lhs.left_end() - lhs.base(), rhs.base2() - rhs.right_begin())
 			: sprout::limited::plus(lhs.base2() - lhs.right_begin(), rhs.left_end() - rhs.base())
 			;
 	}
-- 
2.43.0


From 47a75faff8c75a18c8e57ea26d81d9c114b22696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:59 +0000
Subject: [PATCH 132/185] fix: alternate_iterator moved back by an odd distance
 landed one pair too far

---
 sprout/iterator/alternate_iterator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sprout/iterator/alternate_iterator.hpp b/sprout/iterator/alternate_iterator.hpp
index db9af14..c1433a6 100644
--- a/sprout/iterator/alternate_iterator.hpp
+++ b/sprout/iterator/alternate_iterator.hpp
@@ -47,7 +47,9 @@ namespace sprout {
 		bool in_left;
 	private:
 		SPROUT_CONSTEXPR alternate_iterator advance_impl_1(difference_type n) const {
-			return alternate_iterator(sprout::next(current1, n / 2), sprout::next(current2, n / 2), !(n % 2));
+			return n % 2 < 0 ? alternate_iterator(sprout::next(current1, n / 2 - 1), sprout::next(current2, n / 2 - 1), false)
+				: alternate_iterator(sprout::next(current1, n / 2), sprout::next(current2, n / 2), !(n % 2))
+				;
 		}
 		SPROUT_CONSTEXPR alternate_iterator advance_impl(difference_type n) const {
 			return advance_impl_1(n + (!is_in_left() ? 1 : 0));
-- 
2.43.0


From 77b35aebb4a1cf73baf0265bc42309881ef2fcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:06 +0000
Subject: [PATCH 133/185] fix: limited::multiplies overflowed when a factor was
 -1

---
 sprout/utility/limited.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sprout/utility/limited.hpp b/sprout/utility/limited.hpp
index a33ad78..c85e884 100644
--- a/sprout/utility/limited.hpp
+++ b/sprout/utility/limited.hpp
@@ -38,11 +38,14 @@ namespace sprout {
 			typedef typename sprout::arithmetic_promote<T, U>::type type;
 			return lhs > 0 && rhs > 0 && sprout::numeric_limits<type>::max() / lhs + (sprout::numeric_limits<type>::max() % lhs ? 1 : 0) <= rhs
 					? sprout::numeric_limits<type>::max()
-				: lhs > 0 && rhs < 0 && sprout::numeric_limits<type>::min() / rhs + (sprout::numeric_limits<type>::min() % rhs ? 1 : 0) <= lhs
+				: lhs > 0 && rhs < -1 && sprout::numeric_limits<type>::min() / rhs + (sprout::numeric_limits<type>::min() % rhs ? 1 : 0) <= lhs
 					? sprout::numeric_limits<type>::min()
-				: lhs < 0 && rhs > 0 && sprout::numeric_limits<type>::min() / lhs + (sprout::numeric_limits<type>::min() % lhs ? 1 : 0) <= rhs
+				: lhs < -1 && rhs > 0 && sprout::numeric_limits<type>::min() / lhs + (sprout::numeric_limits<type>::min() % lhs ? 1 : 0) <= rhs
 					? sprout::numeric_limits<type>::min()
-				: lhs < 0 && rhs < 0 && -(sprout::numeric_limits<type>::min() / rhs + (sprout::numeric_limits<type>::min() % rhs ? 1 : 0)) >= lhs
+				: lhs < 0 && rhs < 0 && (rhs < -1
+					? -(sprout::numeric_limits<type>::min() / rhs + (sprout::numeric_limits<type>::min() % rhs ? 1 : 0)) >= lhs
+					: -sprout::numeric_limits<type>::max() > lhs
+					)
 					? sprout::numeric_limits<type>::max()
 				: lhs * rhs
 				;
-- 
2.43.0


From 5c7f25d890007c7eb0989a18ba5ba445262a2275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:12 +0000
Subject: [PATCH 134/185] fix: difference of alternate_iterators was off by two
 when only the right one was in the right range

---
 sprout/iterator/alternate_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/iterator/alternate_iterator.hpp b/sprout/iterator/alternate_iterator.hpp
index c1433a6..f49864d 100644
--- a/sprout/iterator/alternate_iterator.hpp
+++ b/sprout/iterator/alternate_iterator.hpp
@@ -252,7 +252,7 @@ namespace sprout {
 	{
 		return sprout::limited::plus(
 			sprout::limited::multiplies(lhs.base() - rhs.base(), 2),
-			lhs.is_in_left() ? (rhs.is_in_left() ? 0 : 1) : (rhs.is_in_left() ? 1 : 0)
+			lhs.is_in_left() ? (rhs.is_in_left() ? 0 : -1) : (rhs.is_in_left() ? 1 : 0)
 			);
 	}
 	template<typename LIterator, typename RIterator>
-- 
2.43.0


From 15f13b656312a64788200f13aff024e3e7fc2d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:13 +0000
Subject: [PATCH 135/185] fix: removed and removed_if adaptors passed their
 arguments in the wrong order and did not compile

---
 sprout/range/adaptor/removed.hpp    | 4 ++--
 sprout/range/adaptor/removed_if.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/range/adaptor/removed.hpp b/sprout/range/adaptor/removed.hpp
index 32b8cbd..5e1d260 100644
--- a/sprout/range/adaptor/removed.hpp
+++ b/sprout/range/adaptor/removed.hpp
@@ -50,8 +50,8 @@ namespace sprout {
 			removed_range(removed_range const&) = default;
 			SPROUT_CONSTEXPR removed_range(range_type& range, value_type const& value)
 				: base_type(
-					iterator(sprout::begin(range), typename iterator::predicate_type(value)),
-					iterator(sprout::end(range), typename iterator::predicate_type(value))
+					iterator(typename iterator::predicate_type(value), sprout::begin(range), sprout::end(range)),
+					iterator(typename iterator::predicate_type(value), sprout::end(range), sprout::end(range))
 					)
 			{}
 		};
diff --git a/sprout/range/adaptor/removed_if.hpp b/sprout/range/adaptor/removed_if.hpp
index 3beeff5..4ff6b65 100644
--- a/sprout/range/adaptor/removed_if.hpp
+++ b/sprout/range/adaptor/removed_if.hpp
@@ -50,8 +50,8 @@ namespace sprout {
 			removed_if_range(removed_if_range const&) = default;
 			SPROUT_CONSTEXPR removed_if_range(range_type& range, Predicate pred)
 				: base_type(
-					iterator(sprout::begin(range), typename iterator::predicate_type(pred)),
-					iterator(sprout::end(range), typename iterator::predicate_type(pred))
+					iterator(typename iterator::predicate_type(pred), sprout::begin(range), sprout::end(range)),
+					iterator(typename iterator::predicate_type(pred), sprout::end(range), sprout::end(range))
 					)
 			{}
 		};
-- 
2.43.0


From b52fc5df03a1bc6615519bc39b108f63c78713ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:49 +0000
Subject: [PATCH 136/185] fix: clamp_iterator over a mutable sequence did not
 compile

---
 sprout/iterator/clamp_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/iterator/clamp_iterator.hpp b/sprout/iterator/clamp_iterator.hpp
index 8612ee7..57d2f3b 100644
--- a/sprout/iterator/clamp_iterator.hpp
+++ b/sprout/iterator/clamp_iterator.hpp
@@ -34,8 +34,8 @@ namespace sprout {
 		typedef typename base_type::iterator_category iterator_category;
 		typedef typename base_type::value_type value_type;
 		typedef typename base_type::difference_type difference_type;
-		typedef typename base_type::pointer pointer;
-		typedef typename base_type::reference reference;
+		typedef value_type const* pointer;
+		typedef value_type reference;
 	protected:
 		iterator_type current;
 		Compare comp;
-- 
2.43.0


From d81ec5fe00baf6c8303692fd27718072f95e5707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:03 +0000
Subject: [PATCH 137/185] fix: blanked adaptor compared a difference with a
 size and did not compile

---
 sprout/range/adaptor/blanked.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/range/adaptor/blanked.hpp b/sprout/range/adaptor/blanked.hpp
index 1b4ea53..b1d5f88 100644
--- a/sprout/range/adaptor/blanked.hpp
+++ b/sprout/range/adaptor/blanked.hpp
@@ -60,7 +60,7 @@ namespace sprout {
 				difference_type n
 				)
 				: base_type(
-					iterator(value_type(), NS_SSCRISK_CEL_OR_SPROUT::min(n, sprout::size(range))),
+					iterator(value_type(), NS_SSCRISK_CEL_OR_SPROUT::min<difference_type>(n, sprout::size(range))),
 					iterator(value_type(), 0)
 					)
 			{}
@@ -70,7 +70,7 @@ namespace sprout {
 				value_type const& value
 				)
 				: base_type(
-					iterator(value, NS_SSCRISK_CEL_OR_SPROUT::min(n, sprout::size(range))),
+					iterator(value, NS_SSCRISK_CEL_OR_SPROUT::min<difference_type>(n, sprout::size(range))),
 					iterator(value, 0)
 					)
 			{}
-- 
2.43.0


From 1b913fb63d50836cc89942648b94f5d96516448a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:57 +0000
Subject: [PATCH 138/185] fix: moved adaptor ran from the end of the range to
 its beginning

---
 sprout/range/adaptor/moved.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/range/adaptor/moved.hpp b/sprout/range/adaptor/moved.hpp
index c1c8b47..0f00559 100644
--- a/sprout/range/adaptor/moved.hpp
+++ b/sprout/range/adaptor/moved.hpp
@@ -42,8 +42,8 @@ namespace sprout {
 			moved_range(moved_range const&) = default;
 			explicit SPROUT_CONSTEXPR moved_range(range_type& range)
 				: base_type(
-					iterator(sprout::end(range)),
-					iterator(sprout::begin(range))
+					iterator(sprout::begin(range)),
+					iterator(sprout::end(range))
 					)
 			{}
 		};
-- 
2.43.0


From 1033823fd37f4a1e64504ab8dfa90ba6ad13b5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:12 +0000
Subject: [PATCH 139/185] fix: range::fit::transform had the result type of
 fixed::transform and did not compile

---
 sprout/range/algorithm/fit/transform.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/range/algorithm/fit/transform.hpp b/sprout/range/algorithm/fit/transform.hpp
index 1cd1568..285dca8 100644
--- a/sprout/range/algorithm/fit/transform.hpp
+++ b/sprout/range/algorithm/fit/transform.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// transform
 			//
 			template<typename InputRange, typename Result, typename UnaryOperation>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			transform(InputRange const& rng, Result const& result, UnaryOperation op) {
 				return sprout::fit::transform(sprout::begin(rng), sprout::end(rng), result, op);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result, typename BinaryOperation>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			transform(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, BinaryOperation op) {
 				return sprout::fit::transform(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), result, op);
 			}
-- 
2.43.0


From 69208c61848f03fe9ebd13e13aded81d5912f6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:42 +0000
Subject: [PATCH 140/185] fix: range::fit merge and set operations had the
 result type of the fixed ones and did not compile

---
 sprout/range/algorithm/fit/merge.hpp                    | 4 ++--
 sprout/range/algorithm/fit/set_difference.hpp           | 4 ++--
 sprout/range/algorithm/fit/set_intersection.hpp         | 4 ++--
 sprout/range/algorithm/fit/set_symmetric_difference.hpp | 4 ++--
 sprout/range/algorithm/fit/set_union.hpp                | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/sprout/range/algorithm/fit/merge.hpp b/sprout/range/algorithm/fit/merge.hpp
index 96d9e88..e3b7898 100644
--- a/sprout/range/algorithm/fit/merge.hpp
+++ b/sprout/range/algorithm/fit/merge.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// merge
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			merge(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::merge(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			merge(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::merge(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
diff --git a/sprout/range/algorithm/fit/set_difference.hpp b/sprout/range/algorithm/fit/set_difference.hpp
index a1e126e..0187c00 100644
--- a/sprout/range/algorithm/fit/set_difference.hpp
+++ b/sprout/range/algorithm/fit/set_difference.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// set_difference
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_difference(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::set_difference(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_difference(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::set_difference(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
diff --git a/sprout/range/algorithm/fit/set_intersection.hpp b/sprout/range/algorithm/fit/set_intersection.hpp
index 82f4766..dd1e5f3 100644
--- a/sprout/range/algorithm/fit/set_intersection.hpp
+++ b/sprout/range/algorithm/fit/set_intersection.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// set_intersection
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_intersection(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::set_intersection(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_intersection(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::set_intersection(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
diff --git a/sprout/range/algorithm/fit/set_symmetric_difference.hpp b/sprout/range/algorithm/fit/set_symmetric_difference.hpp
index 18073af..ae47a90 100644
--- a/sprout/range/algorithm/fit/set_symmetric_difference.hpp
+++ b/sprout/range/algorithm/fit/set_symmetric_difference.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// set_symmetric_difference
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_symmetric_difference(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::set_symmetric_difference(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_symmetric_difference(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::set_symmetric_difference(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
diff --git a/sprout/range/algorithm/fit/set_union.hpp b/sprout/range/algorithm/fit/set_union.hpp
index 14b1576..f005698 100644
--- a/sprout/range/algorithm/fit/set_union.hpp
+++ b/sprout/range/algorithm/fit/set_union.hpp
@@ -20,12 +20,12 @@ namespace sprout {
 			// set_union
 			//
 			template<typename InputRange1, typename InputRange2, typename Result, typename Compare>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_union(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result, Compare comp) {
 				return sprout::fit::set_union(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result, comp);
 			}
 			template<typename InputRange1, typename InputRange2, typename Result>
-			inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
+			inline SPROUT_CONSTEXPR typename sprout::fit::results::algorithm<Result>::type
 			set_union(InputRange1 const& rng1, InputRange2 const& rng2, Result const& result) {
 				return sprout::fit::set_union(sprout::begin(rng1), sprout::end(rng1), sprout::begin(rng2), sprout::end(rng2), result);
 			}
-- 
2.43.0


From ea0c1779ff3b121815d29eb5b16becb5f69fabdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:42 +0000
Subject: [PATCH 141/185] fix: fixed::exclusive_scan to a given type passed its
 template arguments wrongly and did not compile

---
 sprout/numeric/fixed/exclusive_scan.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/numeric/fixed/exclusive_scan.hpp b/sprout/numeric/fixed/exclusive_scan.hpp
index 671317d..689d643 100644
--- a/sprout/numeric/fixed/exclusive_scan.hpp
+++ b/sprout/numeric/fixed/exclusive_scan.hpp
@@ -107,7 +107,7 @@ namespace sprout {
 		template<typename Result, typename InputIterator, typename T>
 		inline SPROUT_CONSTEXPR typename sprout::fixed::results::algorithm<Result>::type
 		exclusive_scan(InputIterator first, InputIterator last, T init) {
-			return sprout::fixed::exclusive_scan<Result>(first, last, sprout::pit<Result>(), init);
+			return sprout::fixed::exclusive_scan(first, last, sprout::pit<Result>(), init);
 		}
 
 		namespace detail {
-- 
2.43.0


From 969b6cc655c73138b92dee771fc8e9a3232e4ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:42 +0000
Subject: [PATCH 142/185] fix: range::copy_until and copy_while to an iterator
 did not return the pair of their iterator forms and did not compile

---
 sprout/range/algorithm/cxx14/copy_until.hpp | 4 +++-
 sprout/range/algorithm/cxx14/copy_while.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/sprout/range/algorithm/cxx14/copy_until.hpp b/sprout/range/algorithm/cxx14/copy_until.hpp
index 605eeee..081c7dd 100644
--- a/sprout/range/algorithm/cxx14/copy_until.hpp
+++ b/sprout/range/algorithm/cxx14/copy_until.hpp
@@ -10,8 +10,10 @@
 
 #include <sprout/config.hpp>
 #include <sprout/container/functions.hpp>
+#include <sprout/container/traits.hpp>
 #include <sprout/iterator/type_traits/is_iterator_of.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
+#include <sprout/utility/pair/pair.hpp>
 #include <sprout/algorithm/cxx14/copy_until.hpp>
 
 namespace sprout {
@@ -23,7 +25,7 @@ namespace sprout {
 			typename InputRange, typename OutputIterator, typename Predicate,
 			typename sprout::enabler_if<sprout::is_iterator_outputable<OutputIterator>::value>::type = sprout::enabler
 		>
-		inline SPROUT_CXX14_CONSTEXPR OutputIterator
+		inline SPROUT_CXX14_CONSTEXPR sprout::pair<typename sprout::container_traits<InputRange const>::iterator, OutputIterator>
 		copy_until(InputRange const& rng, OutputIterator result, Predicate pred) {
 			return sprout::copy_until(sprout::begin(rng), sprout::end(rng), result, pred);
 		}
diff --git a/sprout/range/algorithm/cxx14/copy_while.hpp b/sprout/range/algorithm/cxx14/copy_while.hpp
index f2f6954..0adb9f6 100644
--- a/sprout/range/algorithm/cxx14/copy_while.hpp
+++ b/sprout/range/algorithm/cxx14/copy_while.hpp
@@ -10,8 +10,10 @@
 
 #include <sprout/config.hpp>
 #include <sprout/container/functions.hpp>
+#include <sprout/container/traits.hpp>
 #include <sprout/iterator/type_traits/is_iterator_of.hpp>
 #include <sprout/type_traits/enabler_if.hpp>
+#include <sprout/utility/pair/pair.hpp>
 #include <sprout/algorithm/cxx14/copy_while.hpp>
 
 namespace sprout {
@@ -23,7 +25,7 @@ namespace sprout {
 			typename InputRange, typename OutputIterator, typename Predicate,
 			typename sprout::enabler_if<sprout::is_iterator_outputable<OutputIterator>::value>::type = sprout::enabler
 		>
-		inline SPROUT_CXX14_CONSTEXPR OutputIterator
+		inline SPROUT_CXX14_CONSTEXPR sprout::pair<typename sprout::container_traits<InputRange const>::iterator, OutputIterator>
 		copy_while(InputRange const& rng, OutputIterator result, Predicate pred) {
 			return sprout::copy_while(sprout::begin(rng), sprout::end(rng), result, pred);
 		}
-- 
2.43.0


From 11c50ee170400c7dbafabdc07823efe1ec927417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:30 +0000
Subject: [PATCH 143/185] fix: the free get_pointer and get(optional*) of an
 empty optional returned the address of its storage, not a null pointer

---
 sprout/optional/optional.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sprout/optional/optional.hpp b/sprout/optional/optional.hpp
index 73ec217..b538149 100644
--- a/sprout/optional/optional.hpp
+++ b/sprout/optional/optional.hpp
@@ -79,13 +79,17 @@ namespace sprout {
 			return sprout::get(t.val);
 		}
 		static SPROUT_CONSTEXPR pointer_type get_pointer(optional& t) SPROUT_NOEXCEPT {
-			return sprout::get_pointer(t.val);
+			return t.is_initialized() ? sprout::get_pointer(t.val)
+				: 0
+				;
 		}
 		static SPROUT_CONSTEXPR pointer_type get_pointer(optional&& t) SPROUT_NOEXCEPT {
 			return get_pointer(t);
 		}
 		static SPROUT_CONSTEXPR pointer_const_type get_pointer(optional const& t) SPROUT_NOEXCEPT {
-			return sprout::get_pointer(t.val);
+			return t.is_initialized() ? sprout::get_pointer(t.val)
+				: 0
+				;
 		}
 		static SPROUT_CONSTEXPR reference_type get_value_or(optional& t, reference_type v) SPROUT_NOEXCEPT {
 			return t.is_initialized() ? sprout::get(t.val)
-- 
2.43.0


From 5627fe4bf8e82b2f83f7df4c01087a7107b38da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:20 +0000
Subject: [PATCH 144/185] fix: optional: the iterator past the end did not
 refer to the value, so dereferencing a reverse iterator read through a null
 pointer

---
 sprout/optional/optional.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sprout/optional/optional.hpp b/sprout/optional/optional.hpp
index b538149..e8bdeaf 100644
--- a/sprout/optional/optional.hpp
+++ b/sprout/optional/optional.hpp
@@ -375,10 +375,14 @@ namespace sprout {
 				;
 		}
 		SPROUT_CXX14_CONSTEXPR iterator end() SPROUT_NOEXCEPT {
-			return iterator();
+			return is_initialized() ? iterator(val, 0)
+				: iterator()
+				;
 		}
 		SPROUT_CONSTEXPR const_iterator end() const SPROUT_NOEXCEPT {
-			return const_iterator();
+			return is_initialized() ? const_iterator(val, 0)
+				: const_iterator()
+				;
 		}
 		SPROUT_CXX14_CONSTEXPR reverse_iterator rbegin() SPROUT_NOEXCEPT {
 			return reverse_iterator(end());
@@ -398,7 +402,9 @@ namespace sprout {
 				;
 		}
 		SPROUT_CONSTEXPR const_iterator cend() const SPROUT_NOEXCEPT {
-			return const_iterator();
+			return is_initialized() ? const_iterator(val, 0)
+				: const_iterator()
+				;
 		}
 		SPROUT_CONSTEXPR const_reverse_iterator crbegin() const SPROUT_NOEXCEPT {
 			return const_reverse_iterator(end());
-- 
2.43.0


From 4f938790bdeebeeb7e310dbb7091eb8cf256c886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:10 +0000
Subject: [PATCH 145/185] fix: variant: a variant could not be copied or
 assigned from a non-const lvalue, which the forwarding constructor took

---
 sprout/variant/variant.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sprout/variant/variant.hpp b/sprout/variant/variant.hpp
index f8917a6..1c86521 100644
--- a/sprout/variant/variant.hpp
+++ b/sprout/variant/variant.hpp
@@ -231,7 +231,10 @@ namespace sprout {
 		{}
 		variant(variant const&) = default;
 		variant(variant&&) = default;
-		template<typename T>
+		template<
+			typename T,
+			typename = typename std::enable_if<!std::is_same<typename std::decay<T>::type, variant>::value>::type
+		>
 		SPROUT_CONSTEXPR variant(T&& operand)
 			: impl_type(
 				SPROUT_FORWARD(T, operand),
@@ -254,7 +257,10 @@ namespace sprout {
 			static_cast<impl_type&>(*this) = sprout::move(rhs);
 			return *this;
 		}
-		template<typename T>
+		template<
+			typename T,
+			typename = typename std::enable_if<!std::is_same<typename std::decay<T>::type, variant>::value>::type
+		>
 		SPROUT_CXX14_CONSTEXPR variant& operator=(T&& rhs) {
 			static_cast<impl_type&>(*this) = variant(SPROUT_FORWARD(T, rhs));
 			return *this;
-- 
2.43.0


From 1673457ab32ef3d13c2e004ec4ff3adebae0df2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:58 +0000
Subject: [PATCH 146/185] fix: tuple: an element of reference type could not be
 got from an rvalue tuple, so a tuple did not convert from forward_as_tuple of
 lvalues

---
 sprout/tuple/tuple/tuple_decl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/tuple/tuple/tuple_decl.hpp b/sprout/tuple/tuple/tuple_decl.hpp
index 4110cdf..b02c3b9 100644
--- a/sprout/tuple/tuple/tuple_decl.hpp
+++ b/sprout/tuple/tuple/tuple_decl.hpp
@@ -64,7 +64,7 @@ namespace sprout {
 				}
 				static SPROUT_CONSTEXPR value_type&&
 				get(element_holder&& t) {
-					return sprout::move(t.value_);
+					return static_cast<value_type&&>(t.value_);
 				}
 				static SPROUT_CONSTEXPR value_type const&
 				get(element_holder const& t) {
-- 
2.43.0


From 111d4d3cea4abf0bb4459da355031795cbb3467b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:38 +0000
Subject: [PATCH 147/185] fix: pair: assignment from a const tuple put the
 first element into both members

---
 sprout/utility/pair/pair.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/utility/pair/pair.hpp b/sprout/utility/pair/pair.hpp
index a72ff99..28e79f9 100644
--- a/sprout/utility/pair/pair.hpp
+++ b/sprout/utility/pair/pair.hpp
@@ -74,7 +74,7 @@ namespace sprout {
 	>
 	inline SPROUT_CXX14_CONSTEXPR sprout::pair<T1, T2>& sprout::pair<T1, T2>::operator=(sprout::tuples::tuple<U, V> const& rhs) {
 		first = sprout::tuples::get<0>(rhs);
-		second = sprout::tuples::get<0>(rhs);
+		second = sprout::tuples::get<1>(rhs);
 		return *this;
 	}
 	template<typename T1, typename T2>
-- 
2.43.0


From 245130a0c08ccf218c8d30847305032a3a8baef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:38 +0000
Subject: [PATCH 148/185] fix: a chained comparison with a given predicate went
 on comparing, through null pointers, after a link had failed

---
 sprout/utility/comparison.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sprout/utility/comparison.hpp b/sprout/utility/comparison.hpp
index e0fbae4..8721331 100644
--- a/sprout/utility/comparison.hpp
+++ b/sprout/utility/comparison.hpp
@@ -229,7 +229,7 @@ namespace sprout {
 	template<typename T, typename Compare, typename U>
 	inline SPROUT_CONSTEXPR sprout::less_comparison<U, Compare>
 	operator<(sprout::less_comparison<T, Compare> const& lhs, U const& rhs) {
-		return lhs.comp()(lhs.get(), rhs) ? sprout::less_comparison<U, Compare>(rhs, lhs.comp())
+		return lhs && lhs.comp()(lhs.get(), rhs) ? sprout::less_comparison<U, Compare>(rhs, lhs.comp())
 			: sprout::less_comparison<U, Compare>()
 			;
 	}
@@ -260,7 +260,7 @@ namespace sprout {
 	template<typename T, typename Compare, typename U>
 	inline SPROUT_CONSTEXPR sprout::less_comparison<U, Compare>
 	operator<=(sprout::less_comparison<T, Compare> const& lhs, U const& rhs) {
-		return !lhs.comp()(rhs, lhs.get()) ? sprout::less_comparison<U, Compare>(rhs, lhs.comp())
+		return lhs && !lhs.comp()(rhs, lhs.get()) ? sprout::less_comparison<U, Compare>(rhs, lhs.comp())
 			: sprout::less_comparison<U, Compare>()
 			;
 	}
@@ -366,7 +366,7 @@ namespace sprout {
 	template<typename T, typename Compare, typename U>
 	inline SPROUT_CONSTEXPR sprout::greater_comparison<U, Compare>
 	operator>(sprout::greater_comparison<T, Compare> const& lhs, U const& rhs) {
-		return lhs.comp()(rhs, lhs.get()) ? sprout::greater_comparison<U, Compare>(rhs, lhs.comp())
+		return lhs && lhs.comp()(rhs, lhs.get()) ? sprout::greater_comparison<U, Compare>(rhs, lhs.comp())
 			: sprout::greater_comparison<U, Compare>()
 			;
 	}
@@ -397,7 +397,7 @@ namespace sprout {
 	template<typename T, typename Compare, typename U>
 	inline SPROUT_CONSTEXPR sprout::greater_comparison<U, Compare>
 	operator>=(sprout::greater_comparison<T, Compare> const& lhs, U const& rhs) {
-		return !lhs.comp()(lhs.get(), rhs) ? sprout::greater_comparison<U, Compare>(rhs, lhs.comp())
+		return lhs && !lhs.comp()(lhs.get(), rhs) ? sprout::greater_comparison<U, Compare>(rhs, lhs.comp())
 			: sprout::greater_comparison<U, Compare>()
 			;
 	}
@@ -492,7 +492,7 @@ namespace sprout {
 	template<typename T, typename Compare, typename U>
 	inline SPROUT_CONSTEXPR sprout::equal_comparison<U, Compare>
 	operator==(sprout::equal_comparison<T, Compare> const& lhs, U const& rhs) {
-		return !lhs.comp()(lhs.get(), rhs) && !lhs.comp()(rhs, lhs.get()) ? sprout::equal_comparison<U, Compare>(rhs, lhs.comp())
+		return lhs && !lhs.comp()(lhs.get(), rhs) && !lhs.comp()(rhs, lhs.get()) ? sprout::equal_comparison<U, Compare>(rhs, lhs.comp())
 			: sprout::equal_comparison<U, Compare>()
 			;
 	}
-- 
2.43.0


From 760fe2e406f7f9fea3838d25d2d4c6e97aa44a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:03 +0000
Subject: [PATCH 149/185] fix: limited::multiplies of unsigned operands took a
 zero for a negative one and divided by it

---
 sprout/utility/limited.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/utility/limited.hpp b/sprout/utility/limited.hpp
index c85e884..02ade9e 100644
--- a/sprout/utility/limited.hpp
+++ b/sprout/utility/limited.hpp
@@ -38,9 +38,9 @@ namespace sprout {
 			typedef typename sprout::arithmetic_promote<T, U>::type type;
 			return lhs > 0 && rhs > 0 && sprout::numeric_limits<type>::max() / lhs + (sprout::numeric_limits<type>::max() % lhs ? 1 : 0) <= rhs
 					? sprout::numeric_limits<type>::max()
-				: lhs > 0 && rhs < -1 && sprout::numeric_limits<type>::min() / rhs + (sprout::numeric_limits<type>::min() % rhs ? 1 : 0) <= lhs
+				: lhs > 0 && rhs < 0 && rhs < -1 && sprout::numeric_limits<type>::min() / rhs + (sprout::numeric_limits<type>::min() % rhs ? 1 : 0) <= lhs
 					? sprout::numeric_limits<type>::min()
-				: lhs < -1 && rhs > 0 && sprout::numeric_limits<type>::min() / lhs + (sprout::numeric_limits<type>::min() % lhs ? 1 : 0) <= rhs
+				: lhs < 0 && lhs < -1 && rhs > 0 && sprout::numeric_limits<type>::min() / lhs + (sprout::numeric_limits<type>::min() % lhs ? 1 : 0) <= rhs
 					? sprout::numeric_limits<type>::min()
 				: lhs < 0 && rhs < 0 && (rhs < -1
 					? -(sprout::numeric_limits<type>::min() / rhs + (sprout::numeric_limits<type>::min() % rhs ? 1 : 0)) >= lhs
-- 
2.43.0


From 049542dcb1f87f55e58cd20bc49583aead337db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:28 +0000
Subject: [PATCH 150/185] fix: valarray copy and move assignment did not
 compile (named members of the implementation)

---
 sprout/valarray/valarray.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/valarray/valarray.hpp b/sprout/valarray/valarray.hpp
index 4fe2156..467d76d 100644
--- a/sprout/valarray/valarray.hpp
+++ b/sprout/valarray/valarray.hpp
@@ -227,14 +227,14 @@ namespace sprout {
 		// assignment:
 		SPROUT_CXX14_CONSTEXPR valarray&
 		operator=(valarray const& rhs) {
-			impl_.array_ = rhs.array_;
-			impl_.size_ = rhs.size_;
+			impl_.array_ = rhs.impl_.array_;
+			impl_.size_ = rhs.impl_.size_;
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR valarray&
 		operator=(valarray&& rhs) SPROUT_NOEXCEPT {
-			impl_.array_ = sprout::move(rhs.array_);
-			impl_.size_ = sprout::move(rhs.size_);
+			impl_.array_ = sprout::move(rhs.impl_.array_);
+			impl_.size_ = sprout::move(rhs.impl_.size_);
 			return *this;
 		}
 		SPROUT_CXX14_CONSTEXPR valarray&
-- 
2.43.0


From 3116455a0d2090e85d4bb4e0606bb6e006c75c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:28 +0000
Subject: [PATCH 151/185] fix: valarray::empty was true exactly for the arrays
 that are not empty

---
 sprout/valarray/valarray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/valarray/valarray.hpp b/sprout/valarray/valarray.hpp
index 467d76d..8a53531 100644
--- a/sprout/valarray/valarray.hpp
+++ b/sprout/valarray/valarray.hpp
@@ -526,7 +526,7 @@ namespace sprout {
 		}
 		SPROUT_CONSTEXPR bool
 		empty() const SPROUT_NOEXCEPT {
-			return size() != 0;
+			return size() == 0;
 		}
 		// element access (array):
 		SPROUT_CXX14_CONSTEXPR reference
-- 
2.43.0


From ca22b8193ab98fd8b4275e87d379bc2a95089d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:28 +0000
Subject: [PATCH 152/185] fix: bind2nd passed its argument as const, so
 valarray's compound assignments of a scalar did not compile

---
 sprout/functional/bind2nd.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/functional/bind2nd.hpp b/sprout/functional/bind2nd.hpp
index 20dd994..f78b5ab 100644
--- a/sprout/functional/bind2nd.hpp
+++ b/sprout/functional/bind2nd.hpp
@@ -63,9 +63,9 @@ namespace sprout {
 				: op(x), value(y)
 			{}
 			template<typename U>
-			SPROUT_CONSTEXPR decltype(std::declval<Fn const&>()(std::declval<U const&>(), std::declval<value_type const&>()))
-			operator()(U const& x) const {
-				return op(x, value);
+			SPROUT_CONSTEXPR decltype(std::declval<Fn const&>()(std::declval<U>(), std::declval<value_type const&>()))
+			operator()(U&& x) const {
+				return op(SPROUT_FORWARD(U, x), value);
 			}
 		};
 	}	// namespace detail
-- 
2.43.0


From fede2e1a77cac09895d0626899b112a371b866f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:01 +0000
Subject: [PATCH 153/185] fix: valarray hypot, pow and log_a of two arrays read
 past the end of the second

---
 sprout/valarray/power.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/valarray/power.hpp b/sprout/valarray/power.hpp
index aef05be..5a7edaf 100644
--- a/sprout/valarray/power.hpp
+++ b/sprout/valarray/power.hpp
@@ -173,7 +173,7 @@ namespace sprout {
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
 	hypot(sprout::valarray<T, N> const& x, sprout::valarray<T, N> const& y) {
-		return sprout::fixed::transform(x.begin(), x.end(), y.end(), x, sprout::detail::hypot_f());
+		return sprout::fixed::transform(x.begin(), x.end(), y.begin(), x, sprout::detail::hypot_f());
 	}
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
@@ -191,7 +191,7 @@ namespace sprout {
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
 	pow(sprout::valarray<T, N> const& x, sprout::valarray<T, N> const& y) {
-		return sprout::fixed::transform(x.begin(), x.end(), y.end(), x, sprout::detail::pow_f());
+		return sprout::fixed::transform(x.begin(), x.end(), y.begin(), x, sprout::detail::pow_f());
 	}
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
@@ -217,7 +217,7 @@ namespace sprout {
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
 	log_a(sprout::valarray<T, N> const& x, sprout::valarray<T, N> const& y) {
-		return sprout::fixed::transform(x.begin(), x.end(), y.end(), x, sprout::detail::log_a_f());
+		return sprout::fixed::transform(x.begin(), x.end(), y.begin(), x, sprout::detail::log_a_f());
 	}
 	template<typename T, std::size_t N>
 	inline SPROUT_CONSTEXPR sprout::valarray<T, N>
-- 
2.43.0


From 641c0448cd6e8b7c5482aba9e6cf6aacf1a6e0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:01 +0000
Subject: [PATCH 154/185] fix: slice_array::at accepted a position past the end
 of the slice

---
 sprout/valarray/slice_array.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sprout/valarray/slice_array.hpp b/sprout/valarray/slice_array.hpp
index 062ff9c..71d7595 100644
--- a/sprout/valarray/slice_array.hpp
+++ b/sprout/valarray/slice_array.hpp
@@ -209,7 +209,9 @@ namespace sprout {
 		}
 		SPROUT_CONSTEXPR reference
 		at(size_type i) const {
-			return arr_->at(slice_.start() + slice_.stride() * i);
+			return i < size() ? arr_->at(slice_.start() + slice_.stride() * i)
+				: (throw std::out_of_range("slice_array<>: index out of range"), (*this)[i])
+				;
 		}
 		SPROUT_CONSTEXPR reference
 		front() const {
-- 
2.43.0


From ad04a6dbfc0b2308478b0ede84e8811dbf65994e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:01 +0000
Subject: [PATCH 155/185] fix: assigning a valarray view to a view of the same
 type rebound the view and copied no element

---
 sprout/valarray/gslice_array.hpp   | 5 +++++
 sprout/valarray/indirect_array.hpp | 5 +++++
 sprout/valarray/mask_array.hpp     | 5 +++++
 sprout/valarray/slice_array.hpp    | 5 +++++
 4 files changed, 20 insertions(+)

diff --git a/sprout/valarray/gslice_array.hpp b/sprout/valarray/gslice_array.hpp
index 990c90a..c122d93 100644
--- a/sprout/valarray/gslice_array.hpp
+++ b/sprout/valarray/gslice_array.hpp
@@ -115,6 +115,11 @@ namespace sprout {
 		SPROUT_CONSTEXPR gslice_array(gslice_array const& other)
 			: arr_(other.arr_), start_(other.start_), size_(other.size_), stride_(other.stride_)
 		{}
+		SPROUT_CXX14_CONSTEXPR gslice_array const&
+		operator=(gslice_array const& ar) const {
+			sprout::copy(ar.begin(), ar.end(), begin());
+			return *this;
+		}
 		template<std::size_t N2, std::size_t M2>
 		SPROUT_CXX14_CONSTEXPR gslice_array const&
 		operator=(gslice_array<T, N2, M2> const& ar) const {
diff --git a/sprout/valarray/indirect_array.hpp b/sprout/valarray/indirect_array.hpp
index d11ba2c..7263193 100644
--- a/sprout/valarray/indirect_array.hpp
+++ b/sprout/valarray/indirect_array.hpp
@@ -51,6 +51,11 @@ namespace sprout {
 		SPROUT_CONSTEXPR indirect_array(indirect_array const& other)
 			: arr_(other.arr_), indexes_(other.indexes_)
 		{}
+		SPROUT_CXX14_CONSTEXPR indirect_array const&
+		operator=(indirect_array const& ar) const {
+			sprout::copy(ar.begin(), ar.end(), begin());
+			return *this;
+		}
 		template<std::size_t N2, std::size_t M2>
 		SPROUT_CXX14_CONSTEXPR indirect_array const&
 		operator=(indirect_array<T, N2, M2> const& ar) const {
diff --git a/sprout/valarray/mask_array.hpp b/sprout/valarray/mask_array.hpp
index ca1585c..d692135 100644
--- a/sprout/valarray/mask_array.hpp
+++ b/sprout/valarray/mask_array.hpp
@@ -59,6 +59,11 @@ namespace sprout {
 		SPROUT_CONSTEXPR mask_array(mask_array const& other)
 			: arr_(other.arr_), indexes_(other.indexes_)
 		{}
+		SPROUT_CXX14_CONSTEXPR mask_array const&
+		operator=(mask_array const& ar) const {
+			sprout::copy(ar.begin(), ar.end(), begin());
+			return *this;
+		}
 		template<std::size_t N2, std::size_t M2>
 		SPROUT_CXX14_CONSTEXPR mask_array const&
 		operator=(mask_array<T, N2, M2> const& ar) const {
diff --git a/sprout/valarray/slice_array.hpp b/sprout/valarray/slice_array.hpp
index 71d7595..9b85a4f 100644
--- a/sprout/valarray/slice_array.hpp
+++ b/sprout/valarray/slice_array.hpp
@@ -74,6 +74,11 @@ namespace sprout {
 		SPROUT_CONSTEXPR slice_array(slice_array const& other)
 			: arr_(other.arr_), slice_(other.slice_)
 		{}
+		SPROUT_CXX14_CONSTEXPR slice_array const&
+		operator=(slice_array const& ar) const {
+			sprout::copy(ar.begin(), ar.end(), begin());
+			return *this;
+		}
 		template<std::size_t N2>
 		SPROUT_CXX14_CONSTEXPR slice_array const&
 		operator=(slice_array<T, N2> const& ar) const {
-- 
2.43.0


From b63d5626cc1983ca41ae0c37a88d09a54d1c60c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:01 +0000
Subject: [PATCH 156/185] fix: valarray::shift kept old elements where it
 shifts in default ones, and read outside the array for distances beyond its
 size

---
 sprout/valarray/valarray.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sprout/valarray/valarray.hpp b/sprout/valarray/valarray.hpp
index 8a53531..d53b1fb 100644
--- a/sprout/valarray/valarray.hpp
+++ b/sprout/valarray/valarray.hpp
@@ -421,8 +421,12 @@ namespace sprout {
 		}
 		SPROUT_CONSTEXPR valarray
 		shift(int i) const {
-			return i > 0 ? sprout::fixed::copy(begin() + i, end(), *this)
-				: i < 0 ? sprout::fixed::copy_backward(begin(), end() + i, *this)
+			return i > 0
+				? static_cast<std::size_t>(i) < size() ? sprout::fixed::copy(begin() + i, end(), valarray(size()))
+					: valarray(size())
+				: i < 0
+				? static_cast<std::size_t>(-(i + 1)) + 1 < size() ? sprout::fixed::copy_backward(begin(), end() + i, valarray(size()))
+					: valarray(size())
 				: *this
 				;
 		}
-- 
2.43.0


From 926127c590f90d44508bd15d920f316231e5e12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:01 +0000
Subject: [PATCH 157/185] fix: valarray::cshift read outside the array for
 distances beyond its size

---
 sprout/valarray/valarray.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sprout/valarray/valarray.hpp b/sprout/valarray/valarray.hpp
index d53b1fb..d4e46cb 100644
--- a/sprout/valarray/valarray.hpp
+++ b/sprout/valarray/valarray.hpp
@@ -432,8 +432,9 @@ namespace sprout {
 		}
 		SPROUT_CONSTEXPR valarray
 		cshift(int i) const {
-			return i > 0 ? sprout::fixed::rotate(*this, begin() + i)
-				: i < 0 ? sprout::fixed::rotate(*this, end() + i)
+			return size() == 0 ? *this
+				: i > 0 ? sprout::fixed::rotate(*this, begin() + static_cast<difference_type>(i) % static_cast<difference_type>(size()))
+				: i < 0 ? sprout::fixed::rotate(*this, end() + static_cast<difference_type>(i) % static_cast<difference_type>(size()))
 				: *this
 				;
 		}
-- 
2.43.0


From aec43ef71beb0a522b571491b43895dfeac75fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:03 +0000
Subject: [PATCH 158/185] fix: bind2nd used SPROUT_FORWARD without including
 its header

---
 sprout/functional/bind2nd.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sprout/functional/bind2nd.hpp b/sprout/functional/bind2nd.hpp
index f78b5ab..2b1f3be 100644
--- a/sprout/functional/bind2nd.hpp
+++ b/sprout/functional/bind2nd.hpp
@@ -14,6 +14,7 @@
 #include <type_traits>
 #include <utility>
 #include <sprout/config.hpp>
+#include <sprout/utility/forward.hpp>
 #include <sprout/functional/base.hpp>
 #include <sprout/functional/type_traits/is_strict_function.hpp>
 
-- 
2.43.0


From 04906376360f48a24f16144f44bc87a9cc12a571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:35 +0000
Subject: [PATCH 159/185] fix: invoke of a member pointer through a pointer did
 not dereference it and did not compile

---
 sprout/type_traits/detail/invoke.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/type_traits/detail/invoke.hpp b/sprout/type_traits/detail/invoke.hpp
index 9f80fce..046a9bc 100644
--- a/sprout/type_traits/detail/invoke.hpp
+++ b/sprout/type_traits/detail/invoke.hpp
@@ -32,7 +32,7 @@ namespace sprout {
 		template<typename PMD, typename Pointer>
 		inline SPROUT_CONSTEXPR decltype((*std::declval<Pointer>()).*(std::declval<PMD>()))
 		invoke(PMD&& pmd, Pointer&& ptr) SPROUT_NOEXCEPT_IF_EXPR((*std::declval<Pointer>()).*(std::declval<PMD>())) {
-			return SPROUT_FORWARD(Pointer, ptr).*(SPROUT_FORWARD(PMD, pmd));
+			return (*SPROUT_FORWARD(Pointer, ptr)).*(SPROUT_FORWARD(PMD, pmd));
 		}
 
 		template<typename Base, typename T, typename Derived, typename... Args>
@@ -44,7 +44,7 @@ namespace sprout {
 		template<typename PMF, typename Pointer, typename... Args>
 		inline SPROUT_CONSTEXPR decltype(((*std::declval<Pointer>()).*(std::declval<PMF>()))(std::declval<Args>()...))
 		invoke(PMF&& pmf, Pointer&& ptr, Args&&... args) SPROUT_NOEXCEPT_IF_EXPR(((*std::declval<Pointer>()).*(std::declval<PMF>()))(std::declval<Args>()...)) {
-			return (SPROUT_FORWARD(Pointer, ptr).*(SPROUT_FORWARD(PMF, pmf)))(SPROUT_FORWARD(Args, args)...);
+			return ((*SPROUT_FORWARD(Pointer, ptr)).*(SPROUT_FORWARD(PMF, pmf)))(SPROUT_FORWARD(Args, args)...);
 		}
 
 		template<typename R, typename F, typename... Args>
-- 
2.43.0


From b637af720a7b96838d4dcd6f29b43a9492a93d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:12 +0000
Subject: [PATCH 160/185] fix: is_copy_assignable and is_move_assignable (and
 nothrow, trivially) asked about assignment to an rvalue, so they were false
 for every scalar

---
 sprout/type_traits/is_copy_assignable.hpp           | 2 +-
 sprout/type_traits/is_move_assignable.hpp           | 2 +-
 sprout/type_traits/is_nothrow_copy_assignable.hpp   | 2 +-
 sprout/type_traits/is_nothrow_move_assignable.hpp   | 2 +-
 sprout/type_traits/is_trivially_copy_assignable.hpp | 2 +-
 sprout/type_traits/is_trivially_move_assignable.hpp | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sprout/type_traits/is_copy_assignable.hpp b/sprout/type_traits/is_copy_assignable.hpp
index c876454..95806c3 100644
--- a/sprout/type_traits/is_copy_assignable.hpp
+++ b/sprout/type_traits/is_copy_assignable.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_copy_assignable_impl<T, false>
-			: public sprout::is_assignable<T, T const&>
+			: public sprout::is_assignable<typename std::add_lvalue_reference<T>::type, typename std::add_lvalue_reference<typename std::add_const<T>::type>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_move_assignable.hpp b/sprout/type_traits/is_move_assignable.hpp
index 8d1321d..563a114 100644
--- a/sprout/type_traits/is_move_assignable.hpp
+++ b/sprout/type_traits/is_move_assignable.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_move_assignable_impl<T, false>
-			: public sprout::is_assignable<T, T&&>
+			: public sprout::is_assignable<typename std::add_lvalue_reference<T>::type, typename std::add_rvalue_reference<T>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_nothrow_copy_assignable.hpp b/sprout/type_traits/is_nothrow_copy_assignable.hpp
index a40ab85..0a4f43d 100644
--- a/sprout/type_traits/is_nothrow_copy_assignable.hpp
+++ b/sprout/type_traits/is_nothrow_copy_assignable.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_nothrow_copy_assignable_impl<T, false>
-			: public sprout::is_nothrow_assignable<T, T const&>
+			: public sprout::is_nothrow_assignable<typename std::add_lvalue_reference<T>::type, typename std::add_lvalue_reference<typename std::add_const<T>::type>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_nothrow_move_assignable.hpp b/sprout/type_traits/is_nothrow_move_assignable.hpp
index e189f6c..fe0416b 100644
--- a/sprout/type_traits/is_nothrow_move_assignable.hpp
+++ b/sprout/type_traits/is_nothrow_move_assignable.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_nothrow_move_assignable_impl<T, false>
-			: public sprout::is_nothrow_assignable<T, T&&>
+			: public sprout::is_nothrow_assignable<typename std::add_lvalue_reference<T>::type, typename std::add_rvalue_reference<T>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_trivially_copy_assignable.hpp b/sprout/type_traits/is_trivially_copy_assignable.hpp
index 318767e..b1393bc 100644
--- a/sprout/type_traits/is_trivially_copy_assignable.hpp
+++ b/sprout/type_traits/is_trivially_copy_assignable.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_trivially_copy_assignable_impl<T, false>
-			: public sprout::is_trivially_assignable<T, T const&>
+			: public sprout::is_trivially_assignable<typename std::add_lvalue_reference<T>::type, typename std::add_lvalue_reference<typename std::add_const<T>::type>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_trivially_move_assignable.hpp b/sprout/type_traits/is_trivially_move_assignable.hpp
index d3917e5..f607b83 100644
--- a/sprout/type_traits/is_trivially_move_assignable.hpp
+++ b/sprout/type_traits/is_trivially_move_assignable.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_trivially_move_assignable_impl<T, false>
-			: public sprout::is_trivially_assignable<T, T&&>
+			: public sprout::is_trivially_assignable<typename std::add_lvalue_reference<T>::type, typename std::add_rvalue_reference<T>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
-- 
2.43.0


From 6c013474b804d2d29024a93114ce247a4d0f15a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:12 +0000
Subject: [PATCH 161/185] fix: is_copy_constructible and is_move_constructible
 (and nothrow, trivially) did not compile for member-qualified function types

---
 sprout/type_traits/is_copy_constructible.hpp           | 2 +-
 sprout/type_traits/is_move_constructible.hpp           | 2 +-
 sprout/type_traits/is_nothrow_copy_constructible.hpp   | 2 +-
 sprout/type_traits/is_nothrow_move_constructible.hpp   | 2 +-
 sprout/type_traits/is_trivially_copy_constructible.hpp | 2 +-
 sprout/type_traits/is_trivially_move_constructible.hpp | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sprout/type_traits/is_copy_constructible.hpp b/sprout/type_traits/is_copy_constructible.hpp
index f347a9f..004f7e7 100644
--- a/sprout/type_traits/is_copy_constructible.hpp
+++ b/sprout/type_traits/is_copy_constructible.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_copy_constructible_impl<T, false>
-			: public sprout::is_constructible<T, T const&>
+			: public sprout::is_constructible<T, typename std::add_lvalue_reference<typename std::add_const<T>::type>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_move_constructible.hpp b/sprout/type_traits/is_move_constructible.hpp
index 4f7c4a7..8a93940 100644
--- a/sprout/type_traits/is_move_constructible.hpp
+++ b/sprout/type_traits/is_move_constructible.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_move_constructible_impl<T, false>
-			: public sprout::is_constructible<T, T&&>
+			: public sprout::is_constructible<T, typename std::add_rvalue_reference<T>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_nothrow_copy_constructible.hpp b/sprout/type_traits/is_nothrow_copy_constructible.hpp
index 7fa3561..6cfaf4b 100644
--- a/sprout/type_traits/is_nothrow_copy_constructible.hpp
+++ b/sprout/type_traits/is_nothrow_copy_constructible.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_nothrow_copy_constructible_impl<T, false>
-			: public sprout::is_nothrow_constructible<T, T const&>
+			: public sprout::is_nothrow_constructible<T, typename std::add_lvalue_reference<typename std::add_const<T>::type>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_nothrow_move_constructible.hpp b/sprout/type_traits/is_nothrow_move_constructible.hpp
index 6226c9c..236bc19 100644
--- a/sprout/type_traits/is_nothrow_move_constructible.hpp
+++ b/sprout/type_traits/is_nothrow_move_constructible.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_nothrow_move_constructible_impl<T, false>
-			: public sprout::is_nothrow_constructible<T, T&&>
+			: public sprout::is_nothrow_constructible<T, typename std::add_rvalue_reference<T>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_trivially_copy_constructible.hpp b/sprout/type_traits/is_trivially_copy_constructible.hpp
index ab3d034..e152d6f 100644
--- a/sprout/type_traits/is_trivially_copy_constructible.hpp
+++ b/sprout/type_traits/is_trivially_copy_constructible.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_trivially_copy_constructible_impl<T, false>
-			: public sprout::is_trivially_constructible<T, T const&>
+			: public sprout::is_trivially_constructible<T, typename std::add_lvalue_reference<typename std::add_const<T>::type>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
diff --git a/sprout/type_traits/is_trivially_move_constructible.hpp b/sprout/type_traits/is_trivially_move_constructible.hpp
index 11ff016..127e577 100644
--- a/sprout/type_traits/is_trivially_move_constructible.hpp
+++ b/sprout/type_traits/is_trivially_move_constructible.hpp
@@ -24,7 +24,7 @@ namespace sprout {
 		{};
 		template<typename T>
 		struct is_trivially_move_constructible_impl<T, false>
-			: public sprout::is_trivially_constructible<T, T&&>
+			: public sprout::is_trivially_constructible<T, typename std::add_rvalue_reference<T>::type>
 		{};
 	}	// namespace detail
 	template<typename T>
-- 
2.43.0


From ecdca382050a03718c97246d05c66c1ef246fa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:44 +0000
Subject: [PATCH 162/185] fix: is_swappable and is_nothrow_swappable did not
 compile for void

---
 sprout/type_traits/is_nothrow_swappable.hpp | 3 ++-
 sprout/type_traits/is_swappable.hpp         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sprout/type_traits/is_nothrow_swappable.hpp b/sprout/type_traits/is_nothrow_swappable.hpp
index d941cf5..8deb507 100644
--- a/sprout/type_traits/is_nothrow_swappable.hpp
+++ b/sprout/type_traits/is_nothrow_swappable.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_TYPE_TRAITS_IS_NOTHROW_SWAPPABLE_HPP
 #define SPROUT_TYPE_TRAITS_IS_NOTHROW_SWAPPABLE_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/type_traits/is_nothrow_swappable_with.hpp>
 
@@ -17,7 +18,7 @@ namespace sprout {
 	//
 	template<typename T>
 	struct is_nothrow_swappable
-		: public sprout::is_nothrow_swappable_with<T&, T&>
+		: public sprout::is_nothrow_swappable_with<typename std::add_lvalue_reference<T>::type, typename std::add_lvalue_reference<T>::type>
 	{};
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
diff --git a/sprout/type_traits/is_swappable.hpp b/sprout/type_traits/is_swappable.hpp
index f3f1d93..ea5d958 100644
--- a/sprout/type_traits/is_swappable.hpp
+++ b/sprout/type_traits/is_swappable.hpp
@@ -8,6 +8,7 @@
 #ifndef SPROUT_TYPE_TRAITS_IS_SWAPPABLE_HPP
 #define SPROUT_TYPE_TRAITS_IS_SWAPPABLE_HPP
 
+#include <type_traits>
 #include <sprout/config.hpp>
 #include <sprout/type_traits/is_swappable_with.hpp>
 
@@ -17,7 +18,7 @@ namespace sprout {
 	//
 	template<typename T>
 	struct is_swappable
-		: public sprout::is_swappable_with<T&, T&>
+		: public sprout::is_swappable_with<typename std::add_lvalue_reference<T>::type, typename std::add_lvalue_reference<T>::type>
 	{};
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
-- 
2.43.0


From 8b99dffd031d306590b67cba3099045821ab102d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:44 +0000
Subject: [PATCH 163/185] fix: is_trivially_assignable was true for a reference
 to a constant scalar

---
 sprout/type_traits/is_trivially_assignable.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sprout/type_traits/is_trivially_assignable.hpp b/sprout/type_traits/is_trivially_assignable.hpp
index 39b04fc..ff64ba9 100644
--- a/sprout/type_traits/is_trivially_assignable.hpp
+++ b/sprout/type_traits/is_trivially_assignable.hpp
@@ -32,23 +32,23 @@ namespace sprout {
 	{};
 	template<typename T>
 	struct is_trivially_assignable<T&, T>
-		: public sprout::is_scalar<T>
+		: public sprout::bool_constant<sprout::is_scalar<T>::value && !std::is_const<T>::value>
 	{};
 	template<typename T>
 	struct is_trivially_assignable<T&, T&>
-		: public sprout::is_scalar<T>
+		: public sprout::bool_constant<sprout::is_scalar<T>::value && !std::is_const<T>::value>
 	{};
 	template<typename T>
 	struct is_trivially_assignable<T&, T const&>
-		: public sprout::is_scalar<T>
+		: public sprout::bool_constant<sprout::is_scalar<T>::value && !std::is_const<T>::value>
 	{};
 	template<typename T>
 	struct is_trivially_assignable<T&, T&&>
-		: public sprout::is_scalar<T>
+		: public sprout::bool_constant<sprout::is_scalar<T>::value && !std::is_const<T>::value>
 	{};
 	template<typename T>
 	struct is_trivially_assignable<T&, T const&&>
-		: public sprout::is_scalar<T>
+		: public sprout::bool_constant<sprout::is_scalar<T>::value && !std::is_const<T>::value>
 	{};
 #endif	// #if SPROUT_CLANG_HAS_FUTURE(is_trivially_assignable)
 #else	// #if !defined(_LIBCPP_VERSION)
-- 
2.43.0


From 21d4cf28f2c9e19536849c0185aaebba8d1ac168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:21 +0000
Subject: [PATCH 164/185] fix: is_const_unqualified and is_volatile_unqualified
 were true exactly for qualified types

---
 sprout/type_traits/is_const_unqualified.hpp    | 2 +-
 sprout/type_traits/is_volatile_unqualified.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/type_traits/is_const_unqualified.hpp b/sprout/type_traits/is_const_unqualified.hpp
index 682728d..b457e4c 100644
--- a/sprout/type_traits/is_const_unqualified.hpp
+++ b/sprout/type_traits/is_const_unqualified.hpp
@@ -19,7 +19,7 @@ namespace sprout {
 	template<typename T>
 	struct is_const_unqualified
 		: public sprout::bool_constant<
-			std::is_const<T>::value
+			!std::is_const<T>::value
 		>
 	{};
 
diff --git a/sprout/type_traits/is_volatile_unqualified.hpp b/sprout/type_traits/is_volatile_unqualified.hpp
index 78623e7..f350b10 100644
--- a/sprout/type_traits/is_volatile_unqualified.hpp
+++ b/sprout/type_traits/is_volatile_unqualified.hpp
@@ -19,7 +19,7 @@ namespace sprout {
 	template<typename T>
 	struct is_volatile_unqualified
 		: public sprout::bool_constant<
-			std::is_volatile<T>::value
+			!std::is_volatile<T>::value
 		>
 	{};
 
-- 
2.43.0


From 6afff6d13f6cedba8878438fa2f8a2d62ab6a61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:21 +0000
Subject: [PATCH 165/185] fix: copy_const copied const from volatile types

---
 sprout/type_traits/copy_const.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/type_traits/copy_const.hpp b/sprout/type_traits/copy_const.hpp
index 2185ffc..cee1ef6 100644
--- a/sprout/type_traits/copy_const.hpp
+++ b/sprout/type_traits/copy_const.hpp
@@ -21,7 +21,7 @@ namespace sprout {
 		: public sprout::identity<T>
 	{};
 	template<typename T, typename U>
-	struct copy_const<T, U volatile>
+	struct copy_const<T, U const>
 		: public std::add_const<T>
 	{};
 
-- 
2.43.0


From 74c72a327e2d2c42f6da941ed9233c265f9413e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:00 +0000
Subject: [PATCH 166/185] fix: is_aggregate looked at the element type of an
 array instead of the array

---
 sprout/type_traits/is_aggregate.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sprout/type_traits/is_aggregate.hpp b/sprout/type_traits/is_aggregate.hpp
index eb0e600..b898bc6 100644
--- a/sprout/type_traits/is_aggregate.hpp
+++ b/sprout/type_traits/is_aggregate.hpp
@@ -12,7 +12,6 @@
 #include <sprout/detail/predef.hpp>
 #include <sprout/type_traits/integral_constant.hpp>
 #include <sprout/type_traits/remove_cv.hpp>
-#include <sprout/type_traits/remove_all_extents.hpp>
 
 namespace sprout {
 	//
@@ -22,7 +21,7 @@ namespace sprout {
 	template<typename T>
 	struct is_aggregate
 		: public sprout::bool_constant<
-			__is_aggregate(typename sprout::remove_cv<typename sprout::remove_all_extents<T>::type>::type)
+			__is_aggregate(typename sprout::remove_cv<T>::type)
 		>
 	{};
 #else	// #if SPROUT_CLANG_HAS_FUTURE(is_aggregate) || SPROUT_GCC_OR_LATER(7, 0, 0)
-- 
2.43.0


From ce42da147b69f42be97d58ea72bfceaa94326806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:28 +0000
Subject: [PATCH 167/185] fix: is_trivially_default_constructible was true for
 types that cannot be constructed for want of a destructor

---
 sprout/type_traits/is_trivially_constructible.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/type_traits/is_trivially_constructible.hpp b/sprout/type_traits/is_trivially_constructible.hpp
index 5c36d93..b4e9681 100644
--- a/sprout/type_traits/is_trivially_constructible.hpp
+++ b/sprout/type_traits/is_trivially_constructible.hpp
@@ -33,7 +33,7 @@ namespace sprout {
 #if SPROUT_CLANG_HAS_FUTURE(has_trivial_constructor) || SPROUT_GCC_OR_LATER(4, 3, 0)
 	template<typename T>
 	struct is_trivially_constructible<T>
-		: public sprout::bool_constant<__has_trivial_constructor(T)>
+		: public sprout::bool_constant<std::is_constructible<T>::value && __has_trivial_constructor(T)>
 	{};
 #else	// #if SPROUT_CLANG_HAS_FUTURE(has_trivial_constructor) || SPROUT_GCC_OR_LATER(4, 3, 0)
 	template<typename T>
-- 
2.43.0


From 2347f1db7807c9e4b809e63cdb6506e39ff7a81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:23 +0000
Subject: [PATCH 168/185] fix: has_pre_increment, has_pre_decrement and
 has_post_decrement each asked about another operator

---
 sprout/type_traits/has_post_decrement.hpp | 2 +-
 sprout/type_traits/has_pre_decrement.hpp  | 2 +-
 sprout/type_traits/has_pre_increment.hpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/type_traits/has_post_decrement.hpp b/sprout/type_traits/has_post_decrement.hpp
index da03ed2..be412bc 100644
--- a/sprout/type_traits/has_post_decrement.hpp
+++ b/sprout/type_traits/has_post_decrement.hpp
@@ -16,7 +16,7 @@ namespace sprout {
 	//
 	// has_post_decrement
 	//
-	SPROUT_DETAIL_HAS_PRE_UNARY_OP_DECL(post_decrement, --);
+	SPROUT_DETAIL_HAS_POST_UNARY_OP_DECL(post_decrement, --);
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
 	template<typename T, typename R = sprout::dont_care>
diff --git a/sprout/type_traits/has_pre_decrement.hpp b/sprout/type_traits/has_pre_decrement.hpp
index b73f177..cad12d5 100644
--- a/sprout/type_traits/has_pre_decrement.hpp
+++ b/sprout/type_traits/has_pre_decrement.hpp
@@ -16,7 +16,7 @@ namespace sprout {
 	//
 	// has_pre_decrement
 	//
-	SPROUT_DETAIL_HAS_PRE_UNARY_OP_DECL(pre_decrement, ++);
+	SPROUT_DETAIL_HAS_PRE_UNARY_OP_DECL(pre_decrement, --);
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
 	template<typename T, typename R = sprout::dont_care>
diff --git a/sprout/type_traits/has_pre_increment.hpp b/sprout/type_traits/has_pre_increment.hpp
index bf9a0e1..a515cc6 100644
--- a/sprout/type_traits/has_pre_increment.hpp
+++ b/sprout/type_traits/has_pre_increment.hpp
@@ -16,7 +16,7 @@ namespace sprout {
 	//
 	// has_pre_increment
 	//
-	SPROUT_DETAIL_HAS_PRE_UNARY_OP_DECL(pre_increment, --);
+	SPROUT_DETAIL_HAS_PRE_UNARY_OP_DECL(pre_increment, ++);
 
 #if SPROUT_USE_VARIABLE_TEMPLATES
 	template<typename T, typename R = sprout::dont_care>
-- 
2.43.0


From c6433b6be2aca6fc8641c0f5fcf8e73645046f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:41 +0000
Subject: [PATCH 169/185] fix: weed's integer parsers accepted one digit fewer
 than their minimum when another character followed

---
 sprout/weed/parser/numeric/int_p.hpp  | 6 +++---
 sprout/weed/parser/numeric/uint_p.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sprout/weed/parser/numeric/int_p.hpp b/sprout/weed/parser/numeric/int_p.hpp
index 4280be0..a5d2af8 100644
--- a/sprout/weed/parser/numeric/int_p.hpp
+++ b/sprout/weed/parser/numeric/int_p.hpp
@@ -88,7 +88,7 @@ namespace sprout {
 							sprout::next(first),
 							static_cast<IntType>(t * Radix + sprout::tuples::get<0>(res))
 							)
-					: N < MinDigits
+					: n <= MinDigits
 						? result_type(false, temp_first, attribute_type())
 						: result_type(true, first, t)
 					;
@@ -114,7 +114,7 @@ namespace sprout {
 						static_cast<IntType>(t * Radix + sprout::tuples::get<0>(res)),
 						n
 						)
-					: N < MinDigits
+					: n <= MinDigits
 						? result_type(false, temp_first, attribute_type())
 						: result_type(true, first, t)
 					;
@@ -137,7 +137,7 @@ namespace sprout {
 						n + 1,
 						sprout::weed::detail::from_ndigit<Radix, IntType>(*first)
 						)
-					: N < MinDigits
+					: n < MinDigits
 						? result_type(false, temp_first, attribute_type())
 						: result_type(true, first, t)
 					;
diff --git a/sprout/weed/parser/numeric/uint_p.hpp b/sprout/weed/parser/numeric/uint_p.hpp
index 2ca693f..d96bd99 100644
--- a/sprout/weed/parser/numeric/uint_p.hpp
+++ b/sprout/weed/parser/numeric/uint_p.hpp
@@ -87,7 +87,7 @@ namespace sprout {
 							sprout::next(first),
 							static_cast<UIntType>(t * Radix + sprout::tuples::get<0>(res))
 							)
-					: N < MinDigits
+					: n <= MinDigits
 						? result_type(false, temp_first, attribute_type())
 						: result_type(true, first, t)
 					;
@@ -113,7 +113,7 @@ namespace sprout {
 						static_cast<UIntType>(t * Radix + sprout::tuples::get<0>(res)),
 						n
 						)
-					: N < MinDigits
+					: n <= MinDigits
 						? result_type(false, temp_first, attribute_type())
 						: result_type(true, first, t)
 					;
@@ -136,7 +136,7 @@ namespace sprout {
 						n + 1,
 						sprout::weed::detail::from_ndigit<Radix, UIntType>(*first)
 						)
-					: N < MinDigits
+					: n < MinDigits
 						? result_type(false, temp_first, attribute_type())
 						: result_type(true, first, t)
 					;
-- 
2.43.0


From da6230b07359ffde7e55d73bdd133e1bd231fcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:41 +0000
Subject: [PATCH 170/185] fix: weed's hex, oct and bin demanded an unreachable
 number of digits and never matched

---
 sprout/weed/parser/numeric/bin.hpp | 2 +-
 sprout/weed/parser/numeric/hex.hpp | 2 +-
 sprout/weed/parser/numeric/oct.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/weed/parser/numeric/bin.hpp b/sprout/weed/parser/numeric/bin.hpp
index 0167dee..f7c6d18 100644
--- a/sprout/weed/parser/numeric/bin.hpp
+++ b/sprout/weed/parser/numeric/bin.hpp
@@ -19,7 +19,7 @@ namespace sprout {
 		//
 		// bin
 		//
-		SPROUT_STATIC_CONSTEXPR auto bin = sprout::weed::uint_p<std::uintmax_t, 2, static_cast<std::size_t>(-1)>();
+		SPROUT_STATIC_CONSTEXPR auto bin = sprout::weed::uint_p<std::uintmax_t, 2, 1, static_cast<std::size_t>(-1)>();
 
 		//
 		// bin8
diff --git a/sprout/weed/parser/numeric/hex.hpp b/sprout/weed/parser/numeric/hex.hpp
index ca34529..e21888b 100644
--- a/sprout/weed/parser/numeric/hex.hpp
+++ b/sprout/weed/parser/numeric/hex.hpp
@@ -19,7 +19,7 @@ namespace sprout {
 		//
 		// hex
 		//
-		SPROUT_STATIC_CONSTEXPR auto hex = sprout::weed::uint_p<std::uintmax_t, 16, static_cast<std::size_t>(-1)>();
+		SPROUT_STATIC_CONSTEXPR auto hex = sprout::weed::uint_p<std::uintmax_t, 16, 1, static_cast<std::size_t>(-1)>();
 
 		//
 		// hex8
diff --git a/sprout/weed/parser/numeric/oct.hpp b/sprout/weed/parser/numeric/oct.hpp
index e9eb433..9db621b 100644
--- a/sprout/weed/parser/numeric/oct.hpp
+++ b/sprout/weed/parser/numeric/oct.hpp
@@ -19,7 +19,7 @@ namespace sprout {
 		//
 		// oct
 		//
-		SPROUT_STATIC_CONSTEXPR auto oct = sprout::weed::uint_p<std::uintmax_t, 8, static_cast<std::size_t>(-1)>();
+		SPROUT_STATIC_CONSTEXPR auto oct = sprout::weed::uint_p<std::uintmax_t, 8, 1, static_cast<std::size_t>(-1)>();
 
 		//
 		// oct8
-- 
2.43.0


From 63984a5f37a4f96969d3a021f555d0e5610401c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:41 +0000
Subject: [PATCH 171/185] fix: weed's repeat left unconsumed the repetition
 that reached the required count

---
 sprout/weed/parser/directive/repeat.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sprout/weed/parser/directive/repeat.hpp b/sprout/weed/parser/directive/repeat.hpp
index 745a78d..2d86eea 100644
--- a/sprout/weed/parser/directive/repeat.hpp
+++ b/sprout/weed/parser/directive/repeat.hpp
@@ -75,7 +75,7 @@ namespace sprout {
 					) const
 				{
 					return res.success()
-						? call(p, p.count_ <= sizeof...(Attrs) ? res.current() : first, sprout::weed::eval(p.expr_, res.ctx()), attrs..., res.attr())
+						? call(p, p.count_ <= sizeof...(Attrs) + 1 ? res.current() : first, sprout::weed::eval(p.expr_, res.ctx()), attrs..., res.attr())
 						: p.count_ <= sizeof...(Attrs)
 							? result_type(true, first, sprout::weed::attr_cnv::times<limit::value, attr_type>(attrs...))
 							: result_type(false, first, attribute_type())
@@ -90,7 +90,7 @@ namespace sprout {
 					) const
 				{
 					return res.success()
-						? call_inf(p, p.count_ <= n ? res.current() : first, sprout::weed::eval(p.expr_, res.ctx()), n + 1)
+						? call_inf(p, p.count_ <= n + 1 || p.count_ == std::size_t(-1) ? res.current() : first, sprout::weed::eval(p.expr_, res.ctx()), n + 1)
 						: result_type(p.count_ <= n || p.count_ == std::size_t(-1), first, attribute_type())
 						;
 				}
@@ -107,7 +107,7 @@ namespace sprout {
 					return res.success()
 						? call_inf(
 							p,
-							p.count_ <= 0 ? res.current() : first,
+							p.count_ <= 1 || p.count_ == std::size_t(-1) ? res.current() : first,
 							sprout::weed::eval(p.expr_, res.ctx()),
 							1
 							)
@@ -127,7 +127,7 @@ namespace sprout {
 					return res.success()
 						? call(
 							p,
-							p.count_ <= 0 ? res.current() : first,
+							p.count_ <= 1 ? res.current() : first,
 							sprout::weed::eval(p.expr_, res.ctx()),
 							res.attr()
 							)
-- 
2.43.0


From ad13c3d8d60cf4f5995ff68bdf107d9ec694f6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:41 +0000
Subject: [PATCH 172/185] fix: weed's string yielded an empty attribute instead
 of the text it matched

---
 sprout/weed/parser/string/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/weed/parser/string/string.hpp b/sprout/weed/parser/string/string.hpp
index 9771ef9..2732da4 100644
--- a/sprout/weed/parser/string/string.hpp
+++ b/sprout/weed/parser/string/string.hpp
@@ -132,7 +132,7 @@ namespace sprout {
 				typedef typename attribute<Context, Iterator>::type attribute_type;
 				return sprout::distance(first, last) >= sprout::size(t_)
 					&& sprout::equal(sprout::begin(t_), sprout::end(t_), first)
-					? result_type(true, sprout::next(first, sprout::size(t_)), attribute_type())
+					? result_type(true, sprout::next(first, sprout::size(t_)), t_)
 					: result_type(false, first, typename attribute<Context, Iterator>::type())
 					;
 			}
-- 
2.43.0


From e12b0d36b5ddff5b222e71f95cf71c1f6fd5020c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:42 +0000
Subject: [PATCH 173/185] fix: weed's choice between an element and a container
 asked the element for its static size

---
 sprout/weed/attr_cnv/results/bitwise_or.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/weed/attr_cnv/results/bitwise_or.hpp b/sprout/weed/attr_cnv/results/bitwise_or.hpp
index 6e23a74..33ab760 100644
--- a/sprout/weed/attr_cnv/results/bitwise_or.hpp
+++ b/sprout/weed/attr_cnv/results/bitwise_or.hpp
@@ -76,7 +76,7 @@ namespace sprout {
 					>::type
 				>
 					: public std::conditional<
-						sprout::container_traits<T>::static_size != 0,
+						sprout::container_traits<U>::static_size != 0,
 						U,
 						typename sprout::container_transform_traits<U>::template rebind_size<1>::type
 					>
-- 
2.43.0


From 0289c3a64592e5d9e778729c0cee1c37b53f6f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:16 +0000
Subject: [PATCH 174/185] fix: weed's is_parser was incomplete for anything
 that is no parser, so that a character set of a string did not compile

---
 sprout/weed/traits/parser/is_parser.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sprout/weed/traits/parser/is_parser.hpp b/sprout/weed/traits/parser/is_parser.hpp
index 6307298..37b6cfa 100644
--- a/sprout/weed/traits/parser/is_parser.hpp
+++ b/sprout/weed/traits/parser/is_parser.hpp
@@ -24,7 +24,9 @@ namespace sprout {
 			// is_parser
 			//
 			template<typename T, typename = void>
-			struct is_parser;
+			struct is_parser
+				: public sprout::false_type
+			{};
 			template<typename T>
 			struct is_parser<
 				T,
-- 
2.43.0


From c66d6cbca1df89e2bf8c7ef3f76a3a92d40dd0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:27 +0000
Subject: [PATCH 175/185] fix: the metafunctions one_of and one_of_same were
 true for an empty list and for more than one match in the first half

---
 sprout/tpp/algorithm/one_of.hpp       | 3 ++-
 sprout/type/algorithm/one_of.hpp      | 8 ++++++--
 sprout/type/algorithm/one_of_same.hpp | 8 ++++++--
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/sprout/tpp/algorithm/one_of.hpp b/sprout/tpp/algorithm/one_of.hpp
index dfd54e4..0bc7087 100644
--- a/sprout/tpp/algorithm/one_of.hpp
+++ b/sprout/tpp/algorithm/one_of.hpp
@@ -38,7 +38,8 @@ namespace sprout {
 				: public sprout::bool_constant<
 					sprout::tpp::detail::one_of_impl<Tup, First, (First + Last) / 2>::value
 						? sprout::tpp::detail::one_of_impl_1<Tup, (First + Last) / 2, Last>::value
-						: sprout::tpp::detail::one_of_impl<Tup, (First + Last) / 2, Last>::value
+						: sprout::tpp::detail::one_of_impl_1<Tup, First, (First + Last) / 2>::value
+							&& sprout::tpp::detail::one_of_impl<Tup, (First + Last) / 2, Last>::value
 				>
 			{};
 		}	// namespace detail
diff --git a/sprout/type/algorithm/one_of.hpp b/sprout/type/algorithm/one_of.hpp
index 6f1ba25..549ba19 100644
--- a/sprout/type/algorithm/one_of.hpp
+++ b/sprout/type/algorithm/one_of.hpp
@@ -77,7 +77,11 @@ namespace sprout {
 						Tuple, Predicate, First + Pivot, Last,
 						(Last - First - Pivot) / 2
 					>::value
-					: sprout::types::detail::one_of_impl<
+					: sprout::types::detail::one_of_impl_1<
+						Tuple, Predicate, First, First + Pivot,
+						Pivot / 2
+					>::value
+					&& sprout::types::detail::one_of_impl<
 						Tuple, Predicate, First + Pivot, Last,
 						(Last - First - Pivot) / 2
 					>::value
@@ -89,7 +93,7 @@ namespace sprout {
 			{};
 			template<typename Tuple, typename Predicate>
 			struct one_of<Tuple, Predicate, 0>
-				: public sprout::true_type
+				: public sprout::false_type
 			{};
 		}	// namespace detail
 		//
diff --git a/sprout/type/algorithm/one_of_same.hpp b/sprout/type/algorithm/one_of_same.hpp
index de23826..9236146 100644
--- a/sprout/type/algorithm/one_of_same.hpp
+++ b/sprout/type/algorithm/one_of_same.hpp
@@ -76,7 +76,11 @@ namespace sprout {
 						Tuple, T, First + Pivot, Last,
 						(Last - First - Pivot) / 2
 					>::value
-					: sprout::types::detail::one_of_same_impl<
+					: sprout::types::detail::one_of_same_impl_1<
+						Tuple, T, First, First + Pivot,
+						Pivot / 2
+					>::value
+					&& sprout::types::detail::one_of_same_impl<
 						Tuple, T, First + Pivot, Last,
 						(Last - First - Pivot) / 2
 					>::value
@@ -88,7 +92,7 @@ namespace sprout {
 			{};
 			template<typename Tuple, typename T>
 			struct one_of_same<Tuple, T, 0>
-				: public sprout::true_type
+				: public sprout::false_type
 			{};
 		}	// namespace detail
 		//
-- 
2.43.0


From 2c6bf804be1ecba0e13ee890e8904a3f114a867e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:07 +0000
Subject: [PATCH 176/185] fix: exempt_ptr::swap swaps the pointers

---
 sprout/memory/exempt_ptr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sprout/memory/exempt_ptr.hpp b/sprout/memory/exempt_ptr.hpp
index e06e918..9856e62 100644
--- a/sprout/memory/exempt_ptr.hpp
+++ b/sprout/memory/exempt_ptr.hpp
@@ -20,6 +20,7 @@
 #include <sprout/type_traits/common_decay.hpp>
 #include <sprout/memory/pointer_cast.hpp>
 #include <sprout/memory/get_pointer.hpp>
+#include <sprout/utility/swap.hpp>
 
 namespace sprout {
 	//
@@ -120,7 +121,7 @@ namespace sprout {
 		}
 		SPROUT_CXX14_CONSTEXPR void
 		swap(exempt_ptr& other) SPROUT_NOEXCEPT {
-			swap(p_, other.p_);
+			sprout::swap(p_, other.p_);
 		}
 		SPROUT_CXX14_CONSTEXPR exempt_ptr&
 		operator++() {
-- 
2.43.0


From 58e6edb8e30cbbb262b7a9e463ac8b2a5d4c9438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:07 +0000
Subject: [PATCH 177/185] fix: compressed_pair with an empty second type
 derives from that type

---
 sprout/compressed_pair.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/compressed_pair.hpp b/sprout/compressed_pair.hpp
index 95e1afd..e0c93e1 100644
--- a/sprout/compressed_pair.hpp
+++ b/sprout/compressed_pair.hpp
@@ -145,7 +145,7 @@ namespace sprout {
 		};
 		template<typename T1, typename T2>
 		class compressed_pair_impl<T1, T2, 2>
-			: protected std::remove_cv<T1>::type
+			: protected std::remove_cv<T2>::type
 		{
 		public:
 			typedef T1 first_type;
-- 
2.43.0


From a750006773798a4f4e73d8543655affacbe61986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:07 +0000
Subject: [PATCH 178/185] fix: hton and ntoh of a single byte stop at the byte

---
 sprout/net/endian.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/net/endian.hpp b/sprout/net/endian.hpp
index 3a69d11..68a764e 100644
--- a/sprout/net/endian.hpp
+++ b/sprout/net/endian.hpp
@@ -98,7 +98,7 @@ namespace sprout {
 			template<typename T>
 			inline SPROUT_CONSTEXPR T
 			reverse_impl(T val, std::uint_fast8_t n1, std::uint_fast8_t n2) {
-				return n1 > n2 ? val : sprout::net::detail::reverse_impl(sprout::net::detail::swap(val, n1, n2), n1 + 1, n2 - 1);
+				return n1 >= n2 ? val : sprout::net::detail::reverse_impl(sprout::net::detail::swap(val, n1, n2), n1 + 1, n2 - 1);
 			}
 
 			/*
-- 
2.43.0


From 5c74df9cdbcd890cc58bcc963496e0e30caf6e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:58 +0000
Subject: [PATCH 179/185] fix: forward_clist range operations follow the link
 of the item

---
 sprout/forward_clist.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sprout/forward_clist.hpp b/sprout/forward_clist.hpp
index 5a8347a..b4ab2ed 100644
--- a/sprout/forward_clist.hpp
+++ b/sprout/forward_clist.hpp
@@ -329,7 +329,7 @@ namespace sprout {
 			item_holder_type* p = sprout::addressof(fst.next);
 			for (; first != last; ++first) {
 				*p = *first;
-				p = sprout::addressof(*p)->next;
+				p = sprout::addressof((*p)->next);
 			}
 		}
 		SPROUT_CXX14_CONSTEXPR forward_clist(forward_clist&& x)
@@ -399,7 +399,7 @@ namespace sprout {
 			item_holder_type* p = sprout::addressof(fst.next);
 			for (; first != last; ++first) {
 				*p = *first;
-				p = sprout::addressof(*p)->next;
+				p = sprout::addressof((*p)->next);
 			}
 			*p = nxt;
 		}
@@ -422,7 +422,7 @@ namespace sprout {
 			item_holder_type* p = sprout::addressof(pos);
 			for (; first != last; ++first) {
 				(*p)->next = *first;
-				p = sprout::addressof(*p)->next;
+				p = sprout::addressof((*p)->next);
 			}
 			(*p)->next = nxt;
 			return iterator(*p);
-- 
2.43.0


From 52a45102cef190837d92e5eccd3666d3b9c9a31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:58 +0000
Subject: [PATCH 180/185] fix: assigning to a forward_clist item changes that
 item

---
 sprout/forward_clist.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/forward_clist.hpp b/sprout/forward_clist.hpp
index b4ab2ed..b9d4178 100644
--- a/sprout/forward_clist.hpp
+++ b/sprout/forward_clist.hpp
@@ -278,12 +278,12 @@ namespace sprout {
 
 			SPROUT_CXX14_CONSTEXPR item& operator=(typename holder_type::argument_type p) {
 				item temp(p, next);
-				temp.swap(p);
+				temp.swap(*this);
 				return *this;
 			}
 			SPROUT_CXX14_CONSTEXPR item& operator=(typename holder_type::movable_argument_type p) {
 				item temp(sprout::move(p), next);
-				temp.swap(p);
+				temp.swap(*this);
 				return *this;
 			}
 
-- 
2.43.0


From b8341bf35adb8756e4985c94f8a135a6345f5ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:58 +0000
Subject: [PATCH 181/185] fix: forward_clist move assignment and swap exchange
 the links

---
 sprout/forward_clist.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/forward_clist.hpp b/sprout/forward_clist.hpp
index b9d4178..0dcfcba 100644
--- a/sprout/forward_clist.hpp
+++ b/sprout/forward_clist.hpp
@@ -336,7 +336,7 @@ namespace sprout {
 			: fst(sprout::move(x.fst))
 		{}
 		SPROUT_CXX14_CONSTEXPR forward_clist& operator=(forward_clist&& x) {
-			fst = sprout::move(x.fst);
+			fst.next = sprout::move(x.fst.next);
 			return *this;
 		}
 		template<typename InputIterator>
@@ -446,7 +446,7 @@ namespace sprout {
 		}
 
 		SPROUT_CXX14_CONSTEXPR void swap(forward_clist& other) {
-			sprout::swap(fst, other.fst);
+			sprout::swap(fst.next, other.fst.next);
 		}
 		SPROUT_CXX14_CONSTEXPR void clear() SPROUT_NOEXCEPT {
 			fst.unlink_all();
-- 
2.43.0


From d871170546894bce7639dad2d9697692ad6e7ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:58 +0000
Subject: [PATCH 182/185] fix: before_begin of a const forward_clist is before
 the first item

---
 sprout/forward_clist.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprout/forward_clist.hpp b/sprout/forward_clist.hpp
index 0dcfcba..6e263db 100644
--- a/sprout/forward_clist.hpp
+++ b/sprout/forward_clist.hpp
@@ -350,7 +350,7 @@ namespace sprout {
 			return iterator(item_holder_type(fst));
 		}
 		SPROUT_CONSTEXPR const_iterator before_begin() const SPROUT_NOEXCEPT {
-			return const_iterator(item_holder_type(fst));
+			return const_iterator(item_holder_type(const_cast<item&>(fst)));
 		}
 		SPROUT_CXX14_CONSTEXPR iterator begin() SPROUT_NOEXCEPT {
 			return iterator(fst.next);
@@ -368,7 +368,7 @@ namespace sprout {
 			return const_iterator(fst.next);
 		}
 		SPROUT_CONSTEXPR const_iterator cbefore_begin() const SPROUT_NOEXCEPT{
-			return const_iterator(fst.next);
+			return before_begin();
 		}
 		SPROUT_CONSTEXPR const_iterator cend() const SPROUT_NOEXCEPT {
 			return const_iterator();
-- 
2.43.0


From 69318672e8b20f40e9e0e52113bf6dfc50fe481c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:58 +0000
Subject: [PATCH 183/185] fix: forward_clist::empty is true when there is no
 item

---
 sprout/forward_clist.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/forward_clist.hpp b/sprout/forward_clist.hpp
index 6e263db..6f0449c 100644
--- a/sprout/forward_clist.hpp
+++ b/sprout/forward_clist.hpp
@@ -375,7 +375,7 @@ namespace sprout {
 		}
 		// capacity:
 		SPROUT_CONSTEXPR bool empty() const SPROUT_NOEXCEPT {
-			return !!fst.next;
+			return !fst.next;
 		}
 		SPROUT_CONSTEXPR size_type max_size() const SPROUT_NOEXCEPT {
 			return sprout::numeric_limits<size_type>::max();
-- 
2.43.0


From 76950a875ae1ec40bb1304b7a1ef87e76827b33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:09 +0000
Subject: [PATCH 184/185] fix: algorithm/fixed/fill.hpp includes the indexes it
 uses

---
 sprout/algorithm/fixed/fill.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sprout/algorithm/fixed/fill.hpp b/sprout/algorithm/fixed/fill.hpp
index 0b9e3e0..6919876 100644
--- a/sprout/algorithm/fixed/fill.hpp
+++ b/sprout/algorithm/fixed/fill.hpp
@@ -12,6 +12,7 @@
 #include <sprout/index_tuple/metafunction.hpp>
 #include <sprout/container/traits.hpp>
 #include <sprout/container/functions.hpp>
+#include <sprout/container/indexes.hpp>
 #include <sprout/iterator/operation.hpp>
 #include <sprout/iterator/value_iterator.hpp>
 #include <sprout/algorithm/fixed/results.hpp>
-- 
2.43.0


From bc2e3afb4a89f683e75e2db18e003b8a098c0a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:16 +0000
Subject: [PATCH 185/185] fix: to_time_t of a date string names the type of the
 digits

---
 sprout/ctime/to_time_t.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sprout/ctime/to_time_t.hpp b/sprout/ctime/to_time_t.hpp
index 31309fd..0607164 100644
--- a/sprout/ctime/to_time_t.hpp
+++ b/sprout/ctime/to_time_t.hpp
@@ -47,7 +47,7 @@ namespace sprout {
 		inline SPROUT_CONSTEXPR int
 		get_num(Elem c) {
 			return !sprout::isdigit(c) ? 0
-				: sprout::detail::char_to_int(c)
+				: sprout::detail::char_to_int<int>(c)
 				;
 		}
 		template<typename InputIterator>
-- 
2.43.0

