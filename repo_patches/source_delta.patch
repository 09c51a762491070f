From 4f2598a85218f7e1bfa045707dbef47568236aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:37 +0000
Subject: [PATCH 01/19] fix: write the symbol of a repair only once in its
 packet

write_repair() appended the size and the bytes of the symbol a second time after
the encoded size. The reader ignores them, so every repair was twice as large as
needed and the number of bytes read never matched the packet's size.
---
 netcode/detail/packetizer.hh | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/netcode/detail/packetizer.hh b/netcode/detail/packetizer.hh
index 98e7ad6..eb13943 100644
--- a/netcode/detail/packetizer.hh
+++ b/netcode/detail/packetizer.hh
@@ -111,12 +111,6 @@ public:
     // Write encoded size.
     write<std::uint16_t>(r.encoded_size());
 
-    // Write size of the repair symbol.
-    write<std::uint16_t>(r.symbol().size());
-
-    // Write repair symbol.
-    write(r.symbol().data(), r.symbol().size());
-
     // End of data.
     mark_end();
   }
-- 
2.43.0


From 5c329efa54c0b8fd903e97b77a6e872b5a0acf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:12 +0000
Subject: [PATCH 02/19] fix: don't truncate the encoded size of repairs when w
 = 32

The product of a size and of a coefficient needs up to 32 bits in GF(2^32), but it
was truncated to 16 bits when encoded, sent and decoded. It can't be inverted
then: as soon as products didn't fit in 16 bits, data recovered from repairs had a
wrong size. Keep encoded sizes on 32 bits.
---
 netcode/detail/decoder.cc      | 12 +++++-------
 netcode/detail/encoder.cc      |  4 +---
 netcode/detail/galois_field.hh |  8 ++++----
 netcode/detail/packetizer.hh   |  4 ++--
 netcode/detail/repair.hh       | 16 ++++++++--------
 5 files changed, 20 insertions(+), 24 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index 1fd59fb..e528438 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -164,7 +164,7 @@ noexcept
   const auto inv = m_gf.invert(m_gf.coefficient(r.id(), src_id));
 
   // Reconstruct size.
-  const auto src_sz = m_gf.multiply_size(r.encoded_size(), inv);
+  const auto src_sz = static_cast<std::uint16_t>(m_gf.multiply_size(r.encoded_size(), inv));
 
   // The source that will be reconstructed.
   auto src = decoder_source{src_id, packet(src_sz + packet::alignment), src_sz};
@@ -400,8 +400,7 @@ noexcept
   const auto coeff = m_gf.coefficient(r.id(), src.id());
 
   // Remove source size.
-  r.encoded_size()
-    = static_cast<std::uint16_t>(m_gf.multiply_size(src.symbol_size(), coeff) ^ r.encoded_size());
+  r.encoded_size() ^= m_gf.multiply_size(src.symbol_size(), coeff);
 
   // Remove symbol.
   m_gf.multiply_add(src.symbol(), r.symbol(), src.symbol_size(), coeff);
@@ -483,17 +482,16 @@ decoder::attempt_full_decoding()
     // First, decode the size of the source.
     const auto src_sz = [&,this]
     {
-      auto res = std::uint16_t{0};
+      auto res = std::uint32_t{0};
       for (auto repair_row = 0ul; repair_row < m_inv.dimension(); ++repair_row)
       {
         const auto coeff = m_inv(repair_row, src_col);
         if (coeff != 0)
         {
-          const auto tmp = m_gf.multiply_size(m_index[repair_row]->encoded_size(), coeff);
-          res = static_cast<std::uint16_t>(tmp) ^ res;
+          res ^= m_gf.multiply_size(m_index[repair_row]->encoded_size(), coeff);
         }
       }
-      return res;
+      return static_cast<std::uint16_t>(res);
     }();
 
     // Now, decode symbol.
diff --git a/netcode/detail/encoder.cc b/netcode/detail/encoder.cc
index be5f549..3bf2f46 100644
--- a/netcode/detail/encoder.cc
+++ b/netcode/detail/encoder.cc
@@ -57,9 +57,7 @@ encoder::operator()(encoder_repair& repair, source_list& sources)
     m_gf.multiply_add(cit->symbol().data(), repair.symbol().data(), cit->size(), c);
 
     // Finally, add the user size.
-    // Cast is necessary to inhibit conversion warning as xor implicitly convert to a signed value.
-    repair.encoded_size()
-      = static_cast<std::uint16_t>(m_gf.multiply_size(cit->size(), c) ^ repair.encoded_size());
+    repair.encoded_size() ^= m_gf.multiply_size(cit->size(), c);
   }
 }
 
diff --git a/netcode/detail/galois_field.hh b/netcode/detail/galois_field.hh
index 820e5e1..817b2b2 100644
--- a/netcode/detail/galois_field.hh
+++ b/netcode/detail/galois_field.hh
@@ -93,8 +93,8 @@ public:
 
   /// @brief Multiply a size with a coefficient.
   /// @attention Make sure that the coefficient is generated with galois_field::coefficient.
-  std::uint16_t
-  multiply_size(std::uint16_t size, std::uint32_t coeff)
+  std::uint32_t
+  multiply_size(std::uint32_t size, std::uint32_t coeff)
   noexcept
   {
     assert(  (((m_w == 4 or m_w == 8 or m_w == 16 ) and coeff < (1u << m_w)) or (m_w == 32))
@@ -108,14 +108,14 @@ public:
     if (m_w <= 8) // 4 or 8
     {
       __attribute__((aligned(16))) std::uint16_t res;
-      __attribute__((aligned(16))) std::uint16_t size_ = size;
+      __attribute__((aligned(16))) std::uint16_t size_ = static_cast<std::uint16_t>(size);
       multiply( reinterpret_cast<char*>(&size_), reinterpret_cast<char*>(&res)
               , sizeof(std::uint16_t), coeff);
       return res;
     }
     else // w = 16 or 32
     {
-      return static_cast<std::uint16_t>(m_gf.multiply.w32(&m_gf, size, coeff));
+      return m_gf.multiply.w32(&m_gf, m_w == 16 ? size & 0xffffu : size, coeff);
     }
   }
 
diff --git a/netcode/detail/packetizer.hh b/netcode/detail/packetizer.hh
index eb13943..62796af 100644
--- a/netcode/detail/packetizer.hh
+++ b/netcode/detail/packetizer.hh
@@ -109,7 +109,7 @@ public:
     write(r.source_ids());
 
     // Write encoded size.
-    write<std::uint16_t>(r.encoded_size());
+    write<std::uint32_t>(r.encoded_size());
 
     // End of data.
     mark_end();
@@ -150,7 +150,7 @@ public:
     auto ids = read_ids(data, max_len);
 
     // Read encoded size.
-    const auto encoded_sz = read<std::uint16_t>(data, max_len);
+    const auto encoded_sz = read<std::uint32_t>(data, max_len);
 
     return std::make_pair( decoder_repair{id, encoded_sz, std::move(ids), std::move(p), symbol_size}
                          , reinterpret_cast<std::size_t>(data) - begin); // Number of read bytes.
diff --git a/netcode/detail/repair.hh b/netcode/detail/repair.hh
index 09bfec2..a470fdd 100644
--- a/netcode/detail/repair.hh
+++ b/netcode/detail/repair.hh
@@ -36,7 +36,7 @@ public:
 
   /// @brief Construct with an existing list of source identifiers and a symbol.
   /// @note For tests
-  encoder_repair( std::uint32_t id, std::uint16_t encoded_size, source_id_list&& ids
+  encoder_repair( std::uint32_t id, std::uint32_t encoded_size, source_id_list&& ids
                 , detail::zero_byte_buffer&& buffer)
     : m_id{id}
     , m_sources_ids{std::move(ids)}
@@ -104,7 +104,7 @@ public:
   }
 
   /// @brief Get the encoded sizes of all sources this repair contains.
-  std::uint16_t
+  std::uint32_t
   encoded_size()
   const noexcept
   {
@@ -112,7 +112,7 @@ public:
   }
 
   /// @brief Get the encoded sizes of all sources this repair contains.
-  std::uint16_t&
+  std::uint32_t&
   encoded_size()
   noexcept
   {
@@ -128,7 +128,7 @@ private:
   source_id_list m_sources_ids;
 
   /// @brief The encoded sizes of all sources this repair contains.
-  std::uint16_t m_encoded_size;
+  std::uint32_t m_encoded_size;
 
   /// @brief This repair's symbol.
   detail::zero_byte_buffer m_buffer;
@@ -158,7 +158,7 @@ public:
   decoder_repair& operator=(decoder_repair&&) = default;
 
   /// @brief Construct with an existing list of source identifiers and a symbol.
-  decoder_repair( std::uint32_t id, std::uint16_t encoded_size, source_id_list&& ids
+  decoder_repair( std::uint32_t id, std::uint32_t encoded_size, source_id_list&& ids
                 , packet&& p, std::size_t symbol_size)
     : m_id{id}
     , m_sources_ids{std::move(ids)}
@@ -216,7 +216,7 @@ public:
   }
 
   /// @brief Get the encoded sizes of all sources this repair contains.
-  std::uint16_t
+  std::uint32_t
   encoded_size()
   const noexcept
   {
@@ -224,7 +224,7 @@ public:
   }
 
   /// @brief Get the encoded sizes of all sources this repair contains.
-  std::uint16_t&
+  std::uint32_t&
   encoded_size()
   noexcept
   {
@@ -248,7 +248,7 @@ private:
   source_id_list m_sources_ids;
 
   /// @brief The encoded sizes of all sources this repair contains.
-  std::uint16_t m_encoded_size;
+  std::uint32_t m_encoded_size;
 
   /// @brief This repair's symbol.
   packet m_symbol_buffer;
-- 
2.43.0


From 059d4fb8af5fe20633c80f4931641325bd18df66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:24 +0000
Subject: [PATCH 03/19] fix: drop repairs which reference outdated sources

A late repair, overtaken by a more recent one, was dropped only if ALL the sources
it references were outdated. Otherwise, it moved the oldest identifier to keep
backward: sources that had been given to the user and then forgotten were
considered as missing, and were given again to the user when received or decoded.
---
 netcode/detail/decoder.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index e528438..afeaed1 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -56,10 +56,10 @@ decoder::operator()(decoder_repair&& incoming_r)
 {
   assert(not incoming_r.source_ids().empty());
 
-  const auto last_id_in_source_ids = *(incoming_r.source_ids().end() - 1);
-  if (m_last_id and last_id_in_source_ids < *m_last_id)
+  if (m_last_id and *incoming_r.source_ids().begin() < *m_last_id)
   {
-    // It's a repair that provide outdated informations, drop it.
+    // It's a repair that references outdated sources (it was overtaken by a more recent repair),
+    // drop it.
     return;
   }
 
-- 
2.43.0


From 6ace32e72e52f7562b927fe10bef062657e2020b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:33 +0000
Subject: [PATCH 04/19] fix: propagate recovered sources to all repairs

- A source recovered by an incoming repair was not removed from the other repairs
  that encode it, which later produced corrupted data. Also, a full decoding was not
  attempted afterwards: there could be more repairs than missing sources, and the
  matrix was then partially uninitialized.
- A repair encoding only one source was not used if another repair encodes this
  source.
- The iteration on missing sources continued with an iterator that could have been
  invalidated by the recursive call.
- In-order: a source which triggers the recovery of older ones was never given to
  the user, as it was inserted after they had been flushed, and blocked all the
  following ones.
---
 netcode/detail/decoder.cc | 112 +++++++++++++++-----------------------
 netcode/detail/decoder.hh |   2 -
 2 files changed, 45 insertions(+), 69 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index afeaed1..2bc64ef 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -136,16 +136,13 @@ decoder::operator()(decoder_repair&& incoming_r)
     // Create missing source.
     auto src = create_source_from_repair(r);
 
-    // Source is no longer missing.
-    m_missing_sources.erase(src.id());
-
-    // This repair is no longer needed.
+    // This repair is no longer needed. However, other repairs might still encode the newly decoded
+    // source: it will be removed from them by add_source_recursive().
+    m_missing_sources[src.id()].erase(r_cit);
     m_repairs.erase(r_cit);
 
     // This newly decode source might trigger the decoding of several other sources.
     add_source_recursive(std::move(src));
-
-    return;
   }
 
   attempt_full_decoding();
@@ -249,91 +246,73 @@ const noexcept
 void
 decoder::add_source_recursive(decoder_source&& src)
 {
-  if (not m_in_order)
-  {
-    m_callback(src);
-  }
-  else if (src.id() == m_first_missing_source_in_order)
-  {
-    m_callback(src);
-    m_first_missing_source_in_order += 1;
-    // Send all sources that could not be previously sent because their ids were greater than
-    // m_first_missing_source_in_order.
-    flush_ordered_sources();
-  }
+  // Insert-move this new source in the set of known sources.
+  const auto src_id = src.id(); // to force evaluation order in the following call.
+  const auto insertion = m_sources.emplace(src_id, std::move(src));
+  assert(insertion.second && "source already added");
 
-  // First, remove this source from all repairs that encode it.
-  const auto search = m_missing_sources.find(src.id());
+  // Don't use src beyond this point (as it was moved into m_sources), instead use inserted_src.
+  const auto& inserted_src = insertion.first->second;
+
+  // Remove this source from all repairs that encode it.
+  const auto search = m_missing_sources.find(src_id);
   if (search != m_missing_sources.end())
   {
     for (auto r_cit : search->second)
     {
       auto& r = r_cit->second;
-      remove_source_from_repair(src, r);
+      remove_source_from_repair(inserted_src, r);
+      if (r.source_ids().empty())
+      {
+        // This repair doesn't encode any other missing source, there's nothing left to decode.
+        m_repairs.erase(r_cit);
+      }
     }
 
     // It's no longer a missing source.
     m_missing_sources.erase(search);
   }
 
+  if (not m_in_order)
+  {
+    m_callback(inserted_src);
+  }
+  else
+  {
+    // This source will be given to callback as soon as all older sources have been given.
+    m_ordered_sources.emplace(src_id, &inserted_src);
+    flush_ordered_sources();
+  }
+
   // Now, look for repairs that encodes only 1 source. When one is found, the corresponding
   // encoded source is decoded and the repair is erased.
-  for ( auto miss_cit = m_missing_sources.begin(), miss_end = m_missing_sources.end()
-      ; miss_cit != miss_end;)
+  for (auto r_cit = m_repairs.begin(); r_cit != m_repairs.end();)
   {
-    const auto& repairs_cits = miss_cit->second;
-    // Does this missing source is referenced by only one repair?
-    if (repairs_cits.size() == 1)
+    if (r_cit->second.source_ids().size() == 1)
     {
-      // Some shortcuts.
-      const auto r_cit = *repairs_cits.begin();
-      const auto& r = r_cit->second;
-
-      // Does this repair encode only 1 source?
-      if (r.source_ids().size() == 1)
-      {
-        // Check that this source wasn't decoded in the past.
-        assert(m_last_id ? *r.source_ids().begin() >= *m_last_id : true);
-        // Check that this source doesn't belong to the set of current sources.
-        assert(not m_sources.count(*r.source_ids().begin()));
+      auto decoded_src = create_source_from_repair(r_cit->second);
 
-        // This missing source is referenced by only 1 repair and this repair references only 1
-        // missing source. Thus, we can reconstruct the missing source.
-        auto decoded_src = create_source_from_repair(r);
+      // Check that this source wasn't decoded in the past.
+      assert(m_last_id ? decoded_src.id() >= *m_last_id : true);
+      // Check that this source doesn't belong to the set of current sources.
+      assert(not m_sources.count(decoded_src.id()));
 
-        // We can erase this repair.
-        m_repairs.erase(r_cit);
+      // We can erase this repair.
+      m_missing_sources[decoded_src.id()].erase(r_cit);
+      m_repairs.erase(r_cit);
 
-        // It's no longer a missing source.
-        miss_cit = m_missing_sources.erase(miss_cit);
+      // This newly decoded source might trigger the decoding of other sources.
+      add_source_recursive(std::move(decoded_src));
 
-        // This newly decoded source might trigger the decoding of other sources.
-        add_source_recursive(std::move(decoded_src));
-      }
-      else
-      {
-        // This repair encodes too much sources, other sources are needed to reconstruct *miss_cit.
-        // Try next missing source.
-        ++miss_cit;
-      }
+      // Any repair might have been erased by the previous call, start again.
+      r_cit = m_repairs.begin();
     }
     else
     {
-      // This missing source is referenced by multiple repairs. Try next missing source.
-      ++miss_cit;
+      // This repair encodes too much sources. Try next repair.
+      ++r_cit;
     }
   }
-
-  // Insert-move this new source in the set of known sources.
-  const auto src_id = src.id(); // to force evaluation order in the following call.
-  const auto insertion = m_sources.emplace(src_id, std::move(src));
-  assert(insertion.second && "source already added");
-
-  if (m_in_order and insertion.first->second.id() > m_first_missing_source_in_order)
-  {
-    // We can't send the current source as there are some older sources which have not been sent.
-    m_ordered_sources.emplace(insertion.first->second.id(), &insertion.first->second);
-  }
 }
 
 /*------------------------------------------------------------------------------------------------*/
@@ -394,7 +373,6 @@ void
 decoder::remove_source_data_from_repair(const decoder_source& src, decoder_repair& r)
 noexcept
 {
-  assert(r.source_ids().size() > 1 && "Repair encodes only one source");
   assert(src.symbol_size() <= r.symbol_size());
 
   const auto coeff = m_gf.coefficient(r.id(), src.id());
diff --git a/netcode/detail/decoder.hh b/netcode/detail/decoder.hh
index 48987a8..af6e5bf 100644
--- a/netcode/detail/decoder.hh
+++ b/netcode/detail/decoder.hh
@@ -73,7 +73,6 @@ public:
   noexcept;
 
   /// @brief Remove a source from a repair.
-  /// @attention @p r shall encode more than one source.
   void
   remove_source_from_repair(const decoder_source& src, decoder_repair& r)
   noexcept;
@@ -126,7 +125,6 @@ private:
   /// @brief Remove a source from a repair, but not the id from the list of source identifiers.
   /// @attention The id of the removed src must be removed from the repair's list of source
   /// identifiers afterwards.
-  /// @attention @p r shall encode more than one source.
   void
   remove_source_data_from_repair(const decoder_source& src, decoder_repair& r)
   noexcept;
-- 
2.43.0


From 57b0844c36d064c0cda1595ba68f2226d7acb503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:53 +0000
Subject: [PATCH 05/19] fix: report the dependent column when a matrix can't be
 inverted

invert() always reported the last column. The decoder thus dropped its most recent
repair, even if it was independent of the others, and kept the dependent ones: it
could then never gather enough independent repairs, whatever it received.
---
 netcode/detail/invert_matrix.cc | 44 ++++++++++++++++++++-------------
 netcode/detail/invert_matrix.hh |  5 ++--
 2 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/netcode/detail/invert_matrix.cc b/netcode/detail/invert_matrix.cc
index fc98d0f..381790e 100644
--- a/netcode/detail/invert_matrix.cc
+++ b/netcode/detail/invert_matrix.cc
@@ -1,4 +1,6 @@
 #include <cassert>
+#include <utility> // pair, swap
+#include <vector>
 
 #include "netcode/detail/invert_matrix.hh"
 
@@ -8,7 +10,6 @@ namespace ntc { namespace detail {
 
 boost::optional<std::size_t>
 invert(galois_field& gf, square_matrix& mat, square_matrix& inv)
-noexcept
 {
   assert(mat.dimension() == inv.dimension());
 
@@ -23,39 +24,39 @@ noexcept
     }
   }
 
+  // Columns which had to be swapped.
+  std::vector<std::pair<std::size_t, std::size_t>> swaps;
+
   // Convert into upper triangular
   for (auto i = 0ul; i < cols; ++i)
   {
     const auto row_start = i * cols;
 
-    // Swap rows if we have a zero i,i element.
-    // If we can't swap, then the matrix was not invertible.
+    // Swap columns if we have a zero i,i element (rows can't be swapped, as it would be impossible
+    // to tell which one is a linear combination of the others).
+    // If we can't swap, then row i is a combination of the previous ones: the matrix is not
+    // invertible because of this row.
     if (mat[row_start + i] == 0)
     {
-      auto j = 0ul;
-      for (j = i + 1; j < rows and mat[(cols * j) + i] == 0; ++j)
+      auto j = i + 1;
+      while (j < cols and mat[row_start + j] == 0)
       {
+        ++j;
       }
 
-      if (j == rows)
+      if (j == cols)
       {
         // Failure, matrix is not invertible.
-        return {j - 1};
+        return {i};
       }
 
-      const auto row_start2 = j * cols;
-      for (auto k = 0ul; k < cols; ++k)
+      for (auto k = 0ul; k < rows; ++k)
       {
-        auto tmp = mat[row_start + k];
-        mat[row_start + k] = mat[row_start2 + k];
-        mat[row_start2 + k] = tmp;
-
-        tmp = inv[row_start + k];
-        inv[row_start + k] = inv[row_start2 + k];
-        inv[row_start2 + k] = tmp;
+        std::swap(mat[(k * cols) + i], mat[(k * cols) + j]);
       }
+      swaps.emplace_back(i, j);
     }
- 
+
     // Multiply the row by 1/element i,i
     const auto tmp = mat[row_start + i];
     if (tmp != 1)
@@ -122,6 +123,15 @@ noexcept
     }
   }
 
+  // Columns of the matrix were swapped: swap back the corresponding rows of the inverse.
+  for (auto rcit = swaps.rbegin(); rcit != swaps.rend(); ++rcit)
+  {
+    for (auto k = 0ul; k < cols; ++k)
+    {
+      std::swap(inv[(rcit->first * cols) + k], inv[(rcit->second * cols) + k]);
+    }
+  }
+
   // Everything went OK.
   return {};
 }
diff --git a/netcode/detail/invert_matrix.hh b/netcode/detail/invert_matrix.hh
index 5046532..0707968 100644
--- a/netcode/detail/invert_matrix.hh
+++ b/netcode/detail/invert_matrix.hh
@@ -15,10 +15,9 @@ namespace ntc { namespace detail {
 /// @note This is the algorithm provided by jerasure ( http://jerasure.org )
 /// @related square_matrix
 /// @return A initialized optional value if inversion failed. In this case, the value is the column
-/// which made the inversion fail.
+/// which made the inversion fail: it's a linear combination of the previous ones.
 boost::optional<std::size_t>
-invert(galois_field& gf, square_matrix& mat, square_matrix& inv)
-noexcept;
+invert(galois_field& gf, square_matrix& mat, square_matrix& inv);
 
 /*------------------------------------------------------------------------------------------------*/
 
-- 
2.43.0


From 84b2217ef20bdb44a0e6b5bc70a5704b5fabcea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:22 +0000
Subject: [PATCH 06/19] fix: enforce a window size which was lowered at runtime

---
 netcode/encoder.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netcode/encoder.hh b/netcode/encoder.hh
index 7c553fe..dd66954 100644
--- a/netcode/encoder.hh
+++ b/netcode/encoder.hh
@@ -255,7 +255,8 @@ private:
   void
   commit_impl(data&& d)
   {
-    if (m_sources.size() == m_window_size)
+    // The window size might have been lowered since the last call.
+    while (m_sources.size() >= m_window_size)
     {
       m_sources.pop_front();
     }
-- 
2.43.0


From 9a10e219dd41f5f2b1fc70f0946fdcb6d953c6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:37 +0000
Subject: [PATCH 07/19] fix: don't generate a repair when the window is empty

---
 netcode/encoder.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/netcode/encoder.hh b/netcode/encoder.hh
index dd66954..da53d3b 100644
--- a/netcode/encoder.hh
+++ b/netcode/encoder.hh
@@ -159,9 +159,14 @@ public:
   }
 
   /// @brief Force the generation of a repair
+  /// @note Nothing is sent when there are no data to repair, that is when window() == 0
   void
   generate_repair()
   {
+    if (m_sources.size() == 0)
+    {
+      return;
+    }
     m_repair.reset();
     mk_repair();
     ++m_nb_sent_packets;
-- 
2.43.0


From c414efc8173a9712f0ab88c28286d6e311e934a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:37 +0000
Subject: [PATCH 08/19] fix: don't reuse an identifier when the packet handler
 throws

---
 netcode/encoder.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/netcode/encoder.hh b/netcode/encoder.hh
index da53d3b..7365504 100644
--- a/netcode/encoder.hh
+++ b/netcode/encoder.hh
@@ -266,8 +266,10 @@ private:
       m_sources.pop_front();
     }
 
-    // Create a new source in-place at the end of the list of sources.
-    const auto& insertion = m_sources.emplace(m_current_source_id, std::move(d));
+    // Create a new source in-place at the end of the list of sources. Its identifier must never be
+    // used again, even if the packet handler throws.
+    const auto id = m_current_source_id++;
+    const auto& insertion = m_sources.emplace(id, std::move(d));
 
     if (m_code_type == systematic::yes)
     {
@@ -282,12 +284,10 @@ private:
     }
 
     /// @todo Should we generate a repair if window_size() == 1?
-    if ((m_current_source_id + 1) % m_rate == 0)
+    if ((id + 1) % m_rate == 0)
     {
       generate_repair();
     }
-
-    ++m_current_source_id;
   }
 
   /// @brief Notify the encoder that some packet has been received (should be an ack)
-- 
2.43.0


From 53b4834b80a9b8c76e57012bb5cc32667fb2d257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:28 +0000
Subject: [PATCH 09/19] fix: don't truncate differences between identifiers

---
 netcode/detail/packetizer.hh | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/netcode/detail/packetizer.hh b/netcode/detail/packetizer.hh
index 62796af..255842c 100644
--- a/netcode/detail/packetizer.hh
+++ b/netcode/detail/packetizer.hh
@@ -277,6 +277,15 @@ private:
     // Running length encoding.
     while (cit != end)
     {
+      if (*cit > std::numeric_limits<std::uint16_t>::max())
+      {
+        // This difference doesn't fit in 16 bits: a null run length gives the 16 high bits of the
+        // following difference.
+        m_rle_buffer.emplace_back(0, *cit >> 16);
+        m_rle_buffer.emplace_back(1, *cit & 0xffffu);
+        ++cit;
+        continue;
+      }
       std::uint8_t run_length = 1;
       while ( std::next(cit) != end and *cit == *std::next(cit)
               // We limit a run length to make it fit in 8 bits.
@@ -327,14 +336,20 @@ private:
 
     // Reverse running length encoding on the fly.
     const auto nb_pairs = nb_elements - 1u; // Remove the first identifier.
+    std::uint32_t high = 0; // The 16 high bits of the next difference.
     for (auto i = 0ul; i < nb_pairs; ++i)
     {
       const auto run_length = read<std::uint8_t>(data, max_len);
       const auto value = read<std::uint16_t>(data, max_len);
 
+      if (run_length == 0)
+      {
+        high = static_cast<std::uint32_t>(value) << 16;
+      }
       for (auto j = 0u; j < run_length; ++j)
       {
-        m_difference_buffer.push_back(value);
+        m_difference_buffer.push_back(high | value);
+        high = 0;
       }
     }
 
-- 
2.43.0


From 5afdb22f269578c1115f90c808140dd688b44f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:57 +0000
Subject: [PATCH 10/19] fix: let exceptions of handlers go through the decoder

---
 netcode/detail/decoder.cc | 44 ++++++++++++++++++++-------------------
 netcode/detail/decoder.hh |  6 ++----
 2 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index 2bc64ef..2cae701 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -152,7 +152,6 @@ decoder::operator()(decoder_repair&& incoming_r)
 
 decoder_source
 decoder::create_source_from_repair(const decoder_repair& r)
-noexcept
 {
   assert(r.source_ids().size() == 1 && "Repair encodes more that 1 source");
   const auto src_id = *r.source_ids().begin();
@@ -319,7 +318,6 @@ decoder::add_source_recursive(decoder_source&& src)
 
 void
 decoder::drop_outdated(std::uint32_t id)
-noexcept
 {
   // All sources with an identifier strictly less than last_id_ are now considered outdated.
   m_last_id = id;
@@ -454,6 +452,10 @@ decoder::attempt_full_decoding()
     m_index.emplace_back(&rid_repair.second);
   }
 
+  // The decoded sources, in order.
+  std::vector<const decoder_source*> decoded;
+  decoded.reserve(m_missing_sources.size());
+
   auto src_col = 0u;
   for (const auto& miss : m_missing_sources)
   {
@@ -514,31 +516,31 @@ decoder::attempt_full_decoding()
     const auto insertion = m_sources.emplace(miss.first, std::move(src));
     assert(insertion.second && "source already added");
 
-    const auto& inserted_src = insertion.first->second;
-    if (not m_in_order)
-    {
-      m_callback(inserted_src);
-    }
-    else if (inserted_src.id() == m_first_missing_source_in_order)
-    {
-      m_callback(inserted_src);
-      m_first_missing_source_in_order += 1;
-      // Send all sources that could not be previously sent because their ids were greater than
-      // first_missing_source_.
-      flush_ordered_sources();
-    }
-    else
-    {
-      // We can't send the current source as there are some older sources which have not been sent.
-      m_ordered_sources.emplace(inserted_src.id(), &inserted_src);
-    }
+    decoded.push_back(&insertion.first->second);
   }
 
   m_nb_decoded += m_missing_sources.size();
 
-  // Cleanup.
+  // Cleanup. It must be done before calling the callback, which might throw.
   m_repairs.clear();
   m_missing_sources.clear();
+
+  if (not m_in_order)
+  {
+    for (const auto* src : decoded)
+    {
+      m_callback(*src);
+    }
+  }
+  else
+  {
+    // These sources will be given to callback as soon as all older sources have been given.
+    for (const auto* src : decoded)
+    {
+      m_ordered_sources.emplace(src->id(), src);
+    }
+    flush_ordered_sources();
+  }
 }
 
 /*------------------------------------------------------------------------------------------------*/
diff --git a/netcode/detail/decoder.hh b/netcode/detail/decoder.hh
index af6e5bf..01302a7 100644
--- a/netcode/detail/decoder.hh
+++ b/netcode/detail/decoder.hh
@@ -69,8 +69,7 @@ public:
   /// @brief Decode a source contained in a repair.
   /// @attention @p r shall encode exactly one source.
   decoder_source
-  create_source_from_repair(const decoder_repair& r)
-  noexcept;
+  create_source_from_repair(const decoder_repair& r);
 
   /// @brief Remove a source from a repair.
   void
@@ -119,8 +118,7 @@ private:
   /// All sources with an identifier smaller than @p id will be dropped, as well as all repairs
   /// that reference thes outdated sources.
   void
-  drop_outdated(std::uint32_t id)
-  noexcept;
+  drop_outdated(std::uint32_t id);
 
   /// @brief Remove a source from a repair, but not the id from the list of source identifiers.
   /// @attention The id of the removed src must be removed from the repair's list of source
-- 
2.43.0


From 6006b9dbded486a7aee13929357862f58ba517e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:41 +0000
Subject: [PATCH 11/19] fix: drop malformed sources and repairs

---
 netcode/detail/decoder.cc | 98 +++++++++++++++++++++++++++++++--------
 netcode/detail/decoder.hh | 16 +++++++
 2 files changed, 95 insertions(+), 19 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index 2cae701..8bb389f 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -1,5 +1,7 @@
 #include <algorithm>  // all_of
 #include <cassert>
+#include <iterator>   // prev
+#include <limits>
 #include <vector>
 
 #include "netcode/detail/decoder.hh"
@@ -33,6 +35,12 @@ decoder::decoder( std::uint8_t galois_field_size, std::function<void(const decod
 void
 decoder::operator()(decoder_source&& src)
 {
+  if (not is_multiple_of_word(src.symbol_size()))
+  {
+    // No encoder can have sent this source, drop it.
+    return;
+  }
+
   if (m_last_id and src.id() < *m_last_id)
   {
     // This source has already been seen in the past.
@@ -54,7 +62,11 @@ decoder::operator()(decoder_source&& src)
 void
 decoder::operator()(decoder_repair&& incoming_r)
 {
-  assert(not incoming_r.source_ids().empty());
+  if (incoming_r.source_ids().empty() or not is_multiple_of_word(incoming_r.symbol_size()))
+  {
+    // No encoder can have sent this repair, drop it.
+    return;
+  }
 
   if (m_last_id and *incoming_r.source_ids().begin() < *m_last_id)
   {
@@ -131,7 +143,11 @@ decoder::operator()(decoder_repair&& incoming_r)
   assert(not r.source_ids().empty());
 
   // Check if we can rebuild a missing source directly with this repair.
-  if (r.source_ids().size() == 1)
+  if (r.source_ids().size() == 1 and not has_valid_source_size(r))
+  {
+    drop_repair(r_cit);
+  }
+  else if (r.source_ids().size() == 1)
   {
     // Create missing source.
     auto src = create_source_from_repair(r);
@@ -287,7 +303,12 @@ decoder::add_source_recursive(decoder_source&& src)
   // encoded source is decoded and the repair is erased.
   for (auto r_cit = m_repairs.begin(); r_cit != m_repairs.end();)
   {
-    if (r_cit->second.source_ids().size() == 1)
+    if (r_cit->second.source_ids().size() == 1 and not has_valid_source_size(r_cit->second))
+    {
+      drop_repair(r_cit);
+      r_cit = m_repairs.begin();
+    }
+    else if (r_cit->second.source_ids().size() == 1)
     {
       auto decoded_src = create_source_from_repair(r_cit->second);
 
@@ -371,15 +392,50 @@ void
 decoder::remove_source_data_from_repair(const decoder_source& src, decoder_repair& r)
 noexcept
 {
-  assert(src.symbol_size() <= r.symbol_size());
-
   const auto coeff = m_gf.coefficient(r.id(), src.id());
 
+  // A malformed repair might be smaller than the sources it pretends to encode.
+  const auto sz = std::min(src.symbol_size(), r.symbol_size());
+
   // Remove source size.
   r.encoded_size() ^= m_gf.multiply_size(src.symbol_size(), coeff);
 
   // Remove symbol.
-  m_gf.multiply_add(src.symbol(), r.symbol(), src.symbol_size(), coeff);
+  m_gf.multiply_add(src.symbol(), r.symbol(), sz, coeff);
+}
+
+/*------------------------------------------------------------------------------------------------*/
+
+bool
+decoder::is_multiple_of_word(std::uint32_t sz)
+const noexcept
+{
+  return m_gf.size() <= 8 or sz % (m_gf.size() / 8) == 0;
+}
+
+/*------------------------------------------------------------------------------------------------*/
+
+bool
+decoder::has_valid_source_size(const decoder_repair& r)
+noexcept
+{
+  const auto inv = m_gf.invert(m_gf.coefficient(r.id(), *r.source_ids().begin()));
+  const auto sz = m_gf.multiply_size(r.encoded_size(), inv);
+  return sz <= r.symbol_size() and is_multiple_of_word(sz);
+}
+
+/*------------------------------------------------------------------------------------------------*/
+
+void
+decoder::drop_repair(repairs_set_type::iterator r_cit)
+noexcept
+{
+  // Remove repair from missing sources that reference it.
+  for (const auto src_id : r_cit->second.source_ids())
+  {
+    m_missing_sources.find(src_id)->second.erase(r_cit);
+  }
+  m_repairs.erase(r_cit);
 }
 
 /*------------------------------------------------------------------------------------------------*/
@@ -398,8 +454,11 @@ decoder::attempt_full_decoding()
     return;
   }
 
-  assert(m_missing_sources.size() == m_repairs.size() && "More repairs than missing sources");
-  assert(m_missing_sources.size() > 1 && "Trying to create a matrix for only one missing source.");
+  // With well-formed packets, there are never more repairs than missing sources.
+  while (m_repairs.size() > m_missing_sources.size())
+  {
+    drop_repair(std::prev(m_repairs.end()));
+  }
 
   // Build coefficient matrix.
   m_coefficients.resize(m_repairs.size());
@@ -431,14 +490,7 @@ decoder::attempt_full_decoding()
     using difference_type = std::iterator_traits<decltype(r_cit)>::difference_type;
     std::advance(r_cit, static_cast<difference_type>(*r_col));
 
-    // Remove repair from missing sources that reference it.
-    for (const auto src : r_cit->second.source_ids())
-    {
-      m_missing_sources[src].erase(r_cit);
-    }
-
-    // We can now effectively remove the repair.
-    m_repairs.erase(r_cit);
+    drop_repair(r_cit);
     return;
   }
 
@@ -460,7 +512,7 @@ decoder::attempt_full_decoding()
   for (const auto& miss : m_missing_sources)
   {
     // First, decode the size of the source.
-    const auto src_sz = [&,this]
+    const auto decoded_sz = [&,this]
     {
       auto res = std::uint32_t{0};
       for (auto repair_row = 0ul; repair_row < m_inv.dimension(); ++repair_row)
@@ -471,8 +523,16 @@ decoder::attempt_full_decoding()
           res ^= m_gf.multiply_size(m_index[repair_row]->encoded_size(), coeff);
         }
       }
-      return static_cast<std::uint16_t>(res);
+      return res;
     }();
+    if ( decoded_sz > std::numeric_limits<std::uint16_t>::max()
+         or not is_multiple_of_word(decoded_sz))
+    {
+      // Repairs are malformed, give up this source.
+      ++src_col;
+      continue;
+    }
+    const auto src_sz = static_cast<std::uint16_t>(decoded_sz);
 
     // Now, decode symbol.
     // When sources are directly received from the network, they are constructed in a such way that
@@ -519,7 +579,7 @@ decoder::attempt_full_decoding()
     decoded.push_back(&insertion.first->second);
   }
 
-  m_nb_decoded += m_missing_sources.size();
+  m_nb_decoded += decoded.size();
 
   // Cleanup. It must be done before calling the callback, which might throw.
   m_repairs.clear();
diff --git a/netcode/detail/decoder.hh b/netcode/detail/decoder.hh
index 01302a7..56ffb7e 100644
--- a/netcode/detail/decoder.hh
+++ b/netcode/detail/decoder.hh
@@ -127,6 +127,22 @@ private:
   remove_source_data_from_repair(const decoder_source& src, decoder_repair& r)
   noexcept;
 
+  /// @brief Tell if a size is possible for the current Galois field.
+  bool
+  is_multiple_of_word(std::uint32_t sz)
+  const noexcept;
+
+  /// @brief Tell if the size of the source encoded by a repair is possible.
+  /// @attention @p r shall encode exactly one source.
+  bool
+  has_valid_source_size(const decoder_repair& r)
+  noexcept;
+
+  /// @brief Drop a repair and unlink it from the missing sources it references.
+  void
+  drop_repair(repairs_set_type::iterator r_cit)
+  noexcept;
+
   /// @brief Try to construct missing sources from the set of repairs.
   void
   attempt_full_decoding();
-- 
2.43.0


From ca5fd54cb615228dfc8c246d643610cd69eb9c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:40 +0000
Subject: [PATCH 12/19] fix: don't free or leave dangling the message of a C
 error

---
 netcode/c/detail/check_error.hh | 19 +++++++++++--------
 netcode/c/error.h               |  1 +
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/netcode/c/detail/check_error.hh b/netcode/c/detail/check_error.hh
index defe2ce..ebe893e 100644
--- a/netcode/c/detail/check_error.hh
+++ b/netcode/c/detail/check_error.hh
@@ -21,7 +21,14 @@ check_error(Fn&& fn, ntc_error* error)
 noexcept
 -> decltype(fn())
 {
+  // The maximal length of a message, null character included.
+  static constexpr std::size_t max_length = 256;
+  // The library owns the messages: nothing can be assumed on what error->message points to as
+  // error might not be initialized.
+  static thread_local char message[max_length];
+
   error->type = ntc_no_error;
+  error->message = nullptr;
 
   try
   {
@@ -46,19 +53,15 @@ noexcept
   catch (const std::exception& e)
   {
     error->type = ntc_unknown_error;
-    const auto sz = std::strlen(e.what());
-    delete error->message;
-    error->message = new (std::nothrow) char[sz];
-    if (error->message)
-    {
-      std::copy_n(e.what(), sz, error->message);
-    }
+    const auto sz = std::min(std::strlen(e.what()), max_length - 1);
+    std::copy_n(e.what(), sz, message);
+    message[sz] = '\0';
+    error->message = message;
   }
 
   catch (...)
   {
     error->type = ntc_unknown_error;
-    delete error->message;
   }
 
   // Return the default value of the type returned by fn when an error occurs.
diff --git a/netcode/c/error.h b/netcode/c/error.h
index 321f89e..c2fdcf1 100644
--- a/netcode/c/error.h
+++ b/netcode/c/error.h
@@ -28,6 +28,7 @@ typedef struct
 
   /// @brief A message describing the error
   /// @note Might be NULL
+  /// @note Owned by the library, it's valid until the next call to the library in the same thread
   char* message;
 
 } ntc_error;
-- 
2.43.0


From 17bd46670ad3788a1c4cc74bbd431827f0035fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:46 +0000
Subject: [PATCH 13/19] fix: return a null pointer when an allocation fails in
 C constructors

---
 netcode/c/data.cc               |  4 ++--
 netcode/c/decoder.cc            | 13 ++++++++-----
 netcode/c/detail/check_error.hh | 20 ++++++++++++++++++++
 netcode/c/encoder.cc            |  7 +++++--
 netcode/c/packet.cc             |  4 ++--
 5 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/netcode/c/data.cc b/netcode/c/data.cc
index b10677f..17b6b7a 100644
--- a/netcode/c/data.cc
+++ b/netcode/c/data.cc
@@ -9,7 +9,7 @@ ntc_data_t*
 ntc_new_data(uint16_t size)
 noexcept
 {
-  return new (std::nothrow) ntc_data_t(size);
+  return ntc::detail::null_if_throw([&]{return new (std::nothrow) ntc_data_t(size);});
 }
 
 /*------------------------------------------------------------------------------------------------*/
@@ -18,7 +18,7 @@ ntc_data_t*
 ntc_new_data_from(const char* src, uint16_t size)
 noexcept
 {
-  return new (std::nothrow) ntc_data_t(src, src + size);
+  return ntc::detail::null_if_throw([&]{return new (std::nothrow) ntc_data_t(src, src + size);});
 }
 
 /*------------------------------------------------------------------------------------------------*/
diff --git a/netcode/c/decoder.cc b/netcode/c/decoder.cc
index e07178a..34fd01c 100644
--- a/netcode/c/decoder.cc
+++ b/netcode/c/decoder.cc
@@ -11,11 +11,14 @@ ntc_new_decoder( uint8_t galois_field_size, ntc_ordering_type order
                , ntc_packet_handler packet_handler, ntc_data_handler data_handler)
 noexcept
 {
-  return new (std::nothrow) ntc_decoder_t{ galois_field_size
-                                         , order == ntc_in_order_yes ? ntc::in_order::yes
-                                                                     : ntc::in_order::no
-                                         , ntc::detail::c_packet_handler{packet_handler}
-                                         , ntc::detail::c_data_handler{data_handler}};
+  return ntc::detail::null_if_throw([&]
+  {
+    return new (std::nothrow) ntc_decoder_t{ galois_field_size
+                                           , order == ntc_in_order_yes ? ntc::in_order::yes
+                                                                       : ntc::in_order::no
+                                           , ntc::detail::c_packet_handler{packet_handler}
+                                           , ntc::detail::c_data_handler{data_handler}};
+  });
 }
 
 /*------------------------------------------------------------------------------------------------*/
diff --git a/netcode/c/detail/check_error.hh b/netcode/c/detail/check_error.hh
index ebe893e..ba234e3 100644
--- a/netcode/c/detail/check_error.hh
+++ b/netcode/c/detail/check_error.hh
@@ -70,4 +70,24 @@ noexcept
 
 /*------------------------------------------------------------------------------------------------*/
 
+/// @internal
+/// @brief Call the allocating function @p fn, return a null pointer if it throws.
+template <typename Fn>
+auto
+null_if_throw(Fn&& fn)
+noexcept
+-> decltype(fn())
+{
+  try
+  {
+    return fn();
+  }
+  catch (...)
+  {
+    return nullptr;
+  }
+}
+
+/*------------------------------------------------------------------------------------------------*/
+
 }} // namespace ntc::detail
diff --git a/netcode/c/encoder.cc b/netcode/c/encoder.cc
index 74c718f..ec08eac 100644
--- a/netcode/c/encoder.cc
+++ b/netcode/c/encoder.cc
@@ -9,8 +9,11 @@ ntc_encoder_t*
 ntc_new_encoder(uint8_t galois_field_size, ntc_packet_handler handler)
 noexcept
 {
-  return new (std::nothrow) ntc_encoder_t{ galois_field_size
-                                         , ntc::detail::c_packet_handler{handler}};
+  return ntc::detail::null_if_throw([&]
+  {
+    return new (std::nothrow) ntc_encoder_t{ galois_field_size
+                                           , ntc::detail::c_packet_handler{handler}};
+  });
 }
 
 /*------------------------------------------------------------------------------------------------*/
diff --git a/netcode/c/packet.cc b/netcode/c/packet.cc
index babdcf7..0e167d1 100644
--- a/netcode/c/packet.cc
+++ b/netcode/c/packet.cc
@@ -9,7 +9,7 @@ ntc_packet_t*
 ntc_new_packet(uint16_t size)
 noexcept
 {
-  return new (std::nothrow) ntc_packet_t(size);
+  return ntc::detail::null_if_throw([&]{return new (std::nothrow) ntc_packet_t(size);});
 }
 
 /*------------------------------------------------------------------------------------------------*/
@@ -18,7 +18,7 @@ ntc_packet_t*
 ntc_new_packet_from(const char* src, uint16_t size)
 noexcept
 {
-  return new (std::nothrow) ntc_packet_t(src, src + size);
+  return ntc::detail::null_if_throw([&]{return new (std::nothrow) ntc_packet_t(src, src + size);});
 }
 
 /*------------------------------------------------------------------------------------------------*/
-- 
2.43.0


From 45c284e1bf1f9666dded6b1519f1adc0e60d9e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:25 +0000
Subject: [PATCH 14/19] fix: read back packets exactly as they were dumped

---
 netcode/detail/serialize_packet.hh | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/netcode/detail/serialize_packet.hh b/netcode/detail/serialize_packet.hh
index 2c89092..c265841 100644
--- a/netcode/detail/serialize_packet.hh
+++ b/netcode/detail/serialize_packet.hh
@@ -29,17 +29,14 @@ struct serialize_packet
   {
     auto p = packet{};
 
-    std::istreambuf_iterator<char> isb(is);
     auto sz = std::uint16_t{};
-    std::copy_n(isb, 2, reinterpret_cast<char*>(&sz));
-    ++isb;
+    is.read(reinterpret_cast<char*>(&sz), sizeof(sz));
 
     const auto sz_native = boost::endian::big_to_native(sz);
 
     p.m_buffer.resize(sz_native);
-    std::copy_n(isb, sz_native, p.m_buffer.begin());
+    is.read(p.m_buffer.data(), sz_native);
 
-    ++isb;
     return p;
   }
 };
-- 
2.43.0


From 9ef88add8b0e3b5d08403f5d77b408b5f637bf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:31 +0000
Subject: [PATCH 15/19] fix: don't ignore the last packet of a dump when
 replaying it

---
 tools/replay.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/replay.cc b/tools/replay.cc
index 694fc2e..08c0ff0 100644
--- a/tools/replay.cc
+++ b/tools/replay.cc
@@ -63,8 +63,9 @@ main(int argc, const char** argv)
     {
       const auto packet = ntc::detail::serialize_packet::read(dump_file);
 
-      if (dump_file.peek() == std::char_traits<char>::eof())
+      if (not dump_file)
       {
+        // End of file, or truncated packet.
         break;
       }
 
-- 
2.43.0


From 13c915483ff1fe5dd6475287d461f87a33eb93fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:23 +0000
Subject: [PATCH 16/19] fix: don't give a datum again when a handler throws

---
 netcode/detail/decoder.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index 8bb389f..e9c8e26 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -371,8 +371,10 @@ decoder::drop_outdated(std::uint32_t id)
     // take care of it now.
     for (auto cit = m_ordered_sources.begin(), end = m_ordered_sources.lower_bound(id); cit != end;)
     {
-      m_callback(*cit->second);
+      // Erased before being given to the callback, which might throw: it must not be given twice.
+      const auto& src = *cit->second;
       cit = m_ordered_sources.erase(cit);
+      m_callback(src);
     }
     if (m_first_missing_source_in_order < id)
     {
@@ -616,9 +618,11 @@ decoder::flush_ordered_sources()
     while (true)
     {
       assert(cit->first == m_first_missing_source_in_order);
-      m_callback(*cit->second);
+      // Erased before being given to the callback, which might throw: it must not be given twice.
+      const auto& src = *cit->second;
       cit = m_ordered_sources.erase(cit);
       m_first_missing_source_in_order += 1;
+      m_callback(src);
 
       if (cit == m_ordered_sources.end() or cit->first > m_first_missing_source_in_order)
       {
-- 
2.43.0


From 5094ae1c99681b43e741cd184d410e0cad1d8d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:45 +0000
Subject: [PATCH 17/19] fix: measure the loss over all packets when more than
 65535 are sent between two acks

---
 netcode/encoder.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/netcode/encoder.hh b/netcode/encoder.hh
index 7365504..b5ba893 100644
--- a/netcode/encoder.hh
+++ b/netcode/encoder.hh
@@ -308,8 +308,8 @@ private:
       {
         if (m_nb_sent_packets > 0)
         {
-          const auto loss_rate
-            = (m_nb_sent_packets - res.first.nb_packets()) / static_cast<double>(m_nb_sent_packets);
+          const auto nb_sent_packets = static_cast<double>(m_nb_sent_packets);
+          const auto loss_rate = (nb_sent_packets - res.first.nb_packets()) / nb_sent_packets;
           m_rate = rate_for_loss(loss_rate);
         }
         else
@@ -397,7 +397,7 @@ private:
   std::size_t m_nb_sent_sources;
 
   /// @brief The number of sent packets since last ack
-  std::uint16_t m_nb_sent_packets;
+  std::size_t m_nb_sent_packets;
 };
 
 /*------------------------------------------------------------------------------------------------*/
-- 
2.43.0


From 463807071429b8f44591802c852bb6f7b72dc296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:14 +0000
Subject: [PATCH 18/19] fix: don't forward more than was received, nor stop, on
 a truncated source

---
 tools/source_forwarder.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tools/source_forwarder.cc b/tools/source_forwarder.cc
index 045eee9..7190752 100644
--- a/tools/source_forwarder.cc
+++ b/tools/source_forwarder.cc
@@ -2,6 +2,7 @@
 
 #include <boost/asio.hpp>
 
+#include "netcode/errors.hh"
 #include "netcode/packet.hh"
 #include "netcode/detail/packetizer.hh"
 
@@ -78,8 +79,17 @@ main(int argc, const char** argv)
       {
         if (buffer[0] == 2) // source
         {
-          const auto src = packetizer.read_source(std::move(buffer)).first;
-          out_socket.send_to(boost::asio::buffer(src.symbol(), src.symbol_size()), out_endpoint);
+          // Only what has been received must be read.
+          buffer.resize(sz);
+          try
+          {
+            const auto src = packetizer.read_source(std::move(buffer)).first;
+            out_socket.send_to(boost::asio::buffer(src.symbol(), src.symbol_size()), out_endpoint);
+          }
+          catch (const ntc::overflow_error&)
+          {
+            // Truncated source, nothing to forward.
+          }
         }
       }
     }
-- 
2.43.0


From dc3887f0a3b50236ae2effe443e976502aa1a255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:09 +0000
Subject: [PATCH 19/19] fix: the number of packets reported by an ack wraps at
 65536

When no data is delivered for a long time, the number of packets received since
the previous ack exceeds what 16 bits hold: the ack was reporting a wrong number,
and was delayed as its threshold seemed not to be reached.
---
 netcode/decoder.hh | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/netcode/decoder.hh b/netcode/decoder.hh
index d89d6e4..206814d 100644
--- a/netcode/decoder.hh
+++ b/netcode/decoder.hh
@@ -6,6 +6,8 @@
 #endif
 
 #include <chrono>
+#include <cstdint>
+#include <limits>
 
 #include "netcode/detail/decoder.hh"
 #include "netcode/detail/packet_type.hh"
@@ -99,7 +101,7 @@ public:
       case detail::packet_type::repair:
       {
         ++m_nb_received_repairs;
-        ++m_ack.nb_packets();
+        count_packet();
         auto res = m_packetizer.read_repair(std::move(p));
         m_decoder(std::move(res.first));
         return res.second;
@@ -108,7 +110,7 @@ public:
       case detail::packet_type::source:
       {
         ++m_nb_received_sources;
-        ++m_ack.nb_packets();
+        count_packet();
         auto res = m_packetizer.read_source(std::move(p));
         m_decoder(std::move(res.first));
         return res.second;
@@ -288,6 +290,19 @@ public:
 
 private:
 
+  /// @brief Count a received packet for the next ack.
+  ///
+  /// An ack can't report more than 65535 packets: the count must not wrap around.
+  void
+  count_packet()
+  noexcept
+  {
+    if (m_ack.nb_packets() < std::numeric_limits<std::uint16_t>::max())
+    {
+      ++m_ack.nb_packets();
+    }
+  }
+
   /// @brief Callback given to the real encoder to be notified when a source is processed.
   void
   handle_source(const detail::decoder_source& src)
-- 
2.43.0

