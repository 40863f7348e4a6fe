From d1407d3987f3191bee1b24453220eb3134540c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:20 +0000
Subject: [PATCH 01/70] fix: flush segment metadata and summaries to disk
 before renaming them into place

---
 arki/metadata/collection.cc | 3 +++
 arki/segment/metadata.cc    | 9 +++++++++
 2 files changed, 12 insertions(+)

diff --git a/arki/metadata/collection.cc b/arki/metadata/collection.cc
index f02b687..1ed7c90 100644
--- a/arki/metadata/collection.cc
+++ b/arki/metadata/collection.cc
@@ -91,6 +91,9 @@ struct AtomicWriter
     {
         if (!out)
             return;
+        // Make sure the contents reach the disk before the rename does, or a
+        // power failure may leave an empty file in place of the old contents
+        out.fdatasync();
         out.close();
         std::filesystem::rename(out.path(), destfname);
     }
diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index 0e37b2e..08a5a5e 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -125,6 +125,15 @@ struct AtomicWriterWithSummary
 
     void commit()
     {
+        // Make sure the contents reach the disk before the renames do, or a
+        // power failure may leave an empty metadata file newer than its data
+        if (!segment.session().eatmydata)
+        {
+            if (out_md)
+                out_md.fdatasync();
+            if (out_sum)
+                out_sum.fdatasync();
+        }
         if (out_md)
         {
             out_md.close();
-- 
2.43.0


From eeb0f9ab5bccbf23bdf9a04e77de15a67e94c10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:33 +0000
Subject: [PATCH 02/70] fix: a temporary metadata file left by a crash must not
 prevent all further writes

---
 arki/metadata/collection.cc | 2 +-
 arki/segment/metadata.cc    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/arki/metadata/collection.cc b/arki/metadata/collection.cc
index 1ed7c90..92ec610 100644
--- a/arki/metadata/collection.cc
+++ b/arki/metadata/collection.cc
@@ -81,7 +81,7 @@ struct AtomicWriter
 
     explicit AtomicWriter(const std::filesystem::path& fname)
         : destfname(fname),
-          out(path_tmp(fname), O_WRONLY | O_TRUNC | O_CREAT | O_EXCL, 0666)
+          out(path_tmp(fname), O_WRONLY | O_TRUNC | O_CREAT, 0666)
     {
     }
 
diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index 08a5a5e..e2f1d1f 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -93,9 +93,9 @@ struct AtomicWriterWithSummary
 
     explicit AtomicWriterWithSummary(const Segment& segment)
         : segment(segment), out_md(path_tmp(segment.abspath_metadata()),
-                                   O_WRONLY | O_TRUNC | O_CREAT | O_EXCL, 0666),
+                                   O_WRONLY | O_TRUNC | O_CREAT, 0666),
           out_sum(path_tmp(segment.abspath_summary()),
-                  O_WRONLY | O_TRUNC | O_CREAT | O_EXCL, 0666)
+                  O_WRONLY | O_TRUNC | O_CREAT, 0666)
     {
     }
 
-- 
2.43.0


From 34ab3489f5779f76bbb210dea52654a98bab4a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:06 +0000
Subject: [PATCH 03/70] fix: complete the creation of an iseg index that was
 interrupted by a crash

---
 arki/segment/iseg/index.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/arki/segment/iseg/index.cc b/arki/segment/iseg/index.cc
index d16e8a0..f87c9bc 100644
--- a/arki/segment/iseg/index.cc
+++ b/arki/segment/iseg/index.cc
@@ -490,6 +490,24 @@ WIndex<LockType>::WIndex(std::shared_ptr<const Segment> segment,
             m_db.trace();
         this->setup_pragmas();
         this->init_others();
+
+        // If the process that created the index was interrupted before it
+        // could finish, create what is missing
+        Query q("getmd", m_db);
+        q.compile("SELECT name FROM sqlite_master WHERE type='table' AND "
+                  "name='md'");
+        bool has_md = false;
+        while (q.step())
+            has_md = true;
+        if (!has_md)
+        {
+            delete m_others;
+            m_others = nullptr;
+            std::set<types::Code> other_members = this->all_other_tables();
+            if (not other_members.empty())
+                m_others = new Aggregate(m_db, "mdother", other_members);
+            init_db();
+        }
     }
 }
 
-- 
2.43.0


From 8d5c1871f95fcefd97ee744445848c959b5d55c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:06 +0000
Subject: [PATCH 04/70] fix: weekly and biweekly segment names do match the
 step that generated them

---
 arki/dataset/step.cc | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/arki/dataset/step.cc b/arki/dataset/step.cc
index 62cb1a0..cf998fb 100644
--- a/arki/dataset/step.cc
+++ b/arki/dataset/step.cc
@@ -652,21 +652,21 @@ struct Biweekly : public BaseStep
                        core::Interval& interval) const override
     {
         int ye, mo = -1, biweek = -1;
-        if (sscanf(path.c_str(), "%04d/%02d-%d", &ye, &mo, &biweek) != 2)
+        if (sscanf(path.c_str(), "%04d/%02d-%d", &ye, &mo, &biweek) != 3)
             return false;
 
         switch (biweek)
         {
             case 1:
                 interval.begin.set_lowerbound(ye, mo, 1);
-                interval.end.set_lowerbound(ye, mo, 15);
+                interval.end.set_lowerbound(ye, mo, 16);
                 break;
             case 2:
-                interval.begin.set_lowerbound(ye, mo, 15);
+                interval.begin.set_lowerbound(ye, mo, 16);
                 interval.end.set_lowerbound(ye, mo + 1, 1);
                 interval.end.normalise();
                 break;
-            default: break;
+            default: return false;
         }
         return true;
     }
@@ -691,18 +691,18 @@ struct Weekly : public BaseStep
                        core::Interval& interval) const override
     {
         int ye, mo = -1, week = -1;
-        if (sscanf(path.c_str(), "%04d/%02d-%d", &ye, &mo, &week) != 2)
+        if (sscanf(path.c_str(), "%04d/%02d-%d", &ye, &mo, &week) != 3)
             return false;
-        int min_da = -1;
-        int max_da = -1;
-        if (week != -1)
-        {
-            min_da = (week - 1) * 7 + 1;
-            max_da = min_da + 7;
-        }
-        // TODO: are these normalised?
-        interval.begin.set_lowerbound(ye, mo, min_da);
-        interval.end.set_lowerbound(ye, mo, max_da);
+        if (week < 1 || week > 5)
+            return false;
+        interval.begin.set_lowerbound(ye, mo, (week - 1) * 7 + 1);
+        interval.begin.normalise();
+        if (week == 5)
+            // The last week of the month ends with the month
+            interval.end.set_lowerbound(ye, mo + 1, 1);
+        else
+            interval.end.set_lowerbound(ye, mo, week * 7 + 1);
+        interval.end.normalise();
         return true;
     }
 
-- 
2.43.0


From b5479083d499e93e096b39a2376d27e3ffa4994d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:16 +0000
Subject: [PATCH 05/70] fix: dir segments: make the sequence file survive
 crashes, and rebuild it when it is empty

---
 arki/segment/data/dir.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/arki/segment/data/dir.cc b/arki/segment/data/dir.cc
index 639c0ef..4f62478 100644
--- a/arki/segment/data/dir.cc
+++ b/arki/segment/data/dir.cc
@@ -182,14 +182,19 @@ struct CheckBackend : public AppendCheckBackend
         }
 
         size_t cur_sequence = 0;
+        bool new_sequence   = false;
         {
             SequenceFile sf(segment.abspath());
             sf.open();
             cur_sequence = sf.read_sequence();
+            new_sequence = sf.new_file;
         }
 
         scanner.list_files();
 
+        // An empty sequence file means that no data has been stored so far
+        const bool missing_sequence = new_sequence && !scanner.on_disk.empty();
+
         bool dirty  = false;
         State state = AppendCheckBackend::check();
         if (!state.is_ok())
@@ -200,7 +205,7 @@ struct CheckBackend : public AppendCheckBackend
                 return state;
         }
 
-        if (cur_sequence < scanner.max_sequence)
+        if (missing_sequence || cur_sequence < scanner.max_sequence)
         {
             stringstream out;
             out << "sequence file has value " << cur_sequence
@@ -514,6 +519,8 @@ template <typename Data> void BaseWriter<Data>::commit()
     if (this->fired)
         return;
     seqfile.write_sequence(current_pos - 1);
+    if (!this->segment().session().eatmydata)
+        seqfile.fdatasync();
     for (auto& p : pending)
         p.set_source();
     pending.clear();
@@ -580,7 +587,8 @@ bool BaseChecker<Data>::rescan_data(
 
         // FIXME: this is a write done while holding a read lock, and needs to
         // be moved to a fix method
-        if (cur_sequence < scanner.max_sequence)
+        if (cur_sequence < scanner.max_sequence ||
+            (sf.new_file && !scanner.on_disk.empty()))
         {
             stringstream out;
             out << "sequence file value set to " << scanner.max_sequence
-- 
2.43.0


From 8b25205e77dc9864d31bdfd2e336cb600d55a133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 06/70] fix: dir segments: do not fail on data files left
 behind by an interrupted import

---
 arki/segment/data/dir.cc | 10 ++++++++++
 arki/segment/data/dir.h  |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/arki/segment/data/dir.cc b/arki/segment/data/dir.cc
index 4f62478..89e4f4d 100644
--- a/arki/segment/data/dir.cc
+++ b/arki/segment/data/dir.cc
@@ -473,6 +473,15 @@ BaseWriter<Data>::BaseWriter(const segment::WriterConfig& config,
     current_pos = seqfile.read_sequence();
     if (!seqfile.new_file)
         ++current_pos;
+    skip_existing();
+}
+
+template <typename Data> void BaseWriter<Data>::skip_existing()
+{
+    while (std::filesystem::exists(
+        this->segment().abspath() /
+        SequenceFile::data_fname(current_pos, this->segment().format())))
+        ++current_pos;
 }
 
 template <typename Data> BaseWriter<Data>::~BaseWriter()
@@ -511,6 +520,7 @@ const types::source::Blob& BaseWriter<Data>::append(Metadata& md)
                              this->segment().relpath(), current_pos,
                              md.data_size()));
     ++current_pos;
+    skip_existing();
     return *pending.back().new_source;
 }
 
diff --git a/arki/segment/data/dir.h b/arki/segment/data/dir.h
index aa096af..aaeb9a3 100644
--- a/arki/segment/data/dir.h
+++ b/arki/segment/data/dir.h
@@ -86,6 +86,10 @@ public:
                std::shared_ptr<const Data> data);
     ~BaseWriter();
 
+    /// Move current_pos past files left behind by interrupted writes, that
+    /// happened before the sequence file could be updated
+    void skip_existing();
+
     virtual void write_file(Metadata& md, core::NamedFileDescriptor& fd) = 0;
 
     size_t next_offset() const override;
-- 
2.43.0


From e19865d6621708e885bbd6a1c134eca4592c7e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:22 +0000
Subject: [PATCH 07/70] fix: vm2 segments: do not append to a line left
 incomplete by an interrupted write

---
 arki/segment/data/fd.cc | 14 ++++++++++++++
 arki/segment/data/fd.h  |  3 +++
 2 files changed, 17 insertions(+)

diff --git a/arki/segment/data/fd.cc b/arki/segment/data/fd.cc
index 216a23f..e4198eb 100644
--- a/arki/segment/data/fd.cc
+++ b/arki/segment/data/fd.cc
@@ -244,6 +244,7 @@ Writer<Data, File>::Writer(const segment::WriterConfig& config,
     struct stat st;
     this->fd.fstat(st);
     initial_mtime = st.st_mtim;
+    this->fd.prepare_append();
     initial_size  = this->fd.lseek(0, SEEK_END);
     current_pos   = initial_size;
 }
@@ -654,6 +655,19 @@ core::Pending HoleChecker::repack(Collection& mds, const RepackConfig&)
 
 namespace lines {
 
+void File::prepare_append()
+{
+    // If an interrupted write left an incomplete line at the end of the file,
+    // terminate it, or it would swallow the next one
+    off_t size = lseek(0, SEEK_END);
+    if (!size)
+        return;
+    char last = 0;
+    core::File in(path(), O_RDONLY);
+    if (in.pread(&last, 1, size - 1) == 1 && last != '\n')
+        write_all_or_throw("\n", 1);
+}
+
 void File::test_add_padding(size_t size)
 {
     for (unsigned i = 0; i < size; ++i)
diff --git a/arki/segment/data/fd.h b/arki/segment/data/fd.h
index 7e631dc..8b6d63d 100644
--- a/arki/segment/data/fd.h
+++ b/arki/segment/data/fd.h
@@ -20,6 +20,8 @@ public:
     using core::File::File;
 
     void fdtruncate_nothrow(off_t pos) noexcept;
+    /// Called before the first append to the file
+    virtual void prepare_append() {}
     virtual size_t write_data(const arki::metadata::Data& data) = 0;
     virtual void test_add_padding(size_t size)                  = 0;
 };
@@ -244,6 +246,7 @@ class File : public concat::File
 public:
     using concat::File::File;
 
+    void prepare_append() override;
     void test_add_padding(size_t size) override;
 };
 
-- 
2.43.0


From d66ca9ce84cb8cfb21185100d92035d24206b951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:33 +0000
Subject: [PATCH 08/70] fix: check: flush segment data to disk before recording
 the results of a rescan

---
 arki/segment/data/dir.cc | 13 +++++++++++++
 arki/segment/data/fd.cc  | 10 ++++++++++
 2 files changed, 23 insertions(+)

diff --git a/arki/segment/data/dir.cc b/arki/segment/data/dir.cc
index 89e4f4d..715ffe6 100644
--- a/arki/segment/data/dir.cc
+++ b/arki/segment/data/dir.cc
@@ -609,6 +609,19 @@ bool BaseChecker<Data>::rescan_data(
         }
     }
 
+    // What is found is going to be recorded as the contents of the segment, but
+    // it may come from an interrupted import, and be still waiting to be
+    // written to disk
+    if (!this->segment().session().eatmydata)
+        for (const auto& i : scanner.on_disk)
+        {
+            core::File fd(this->segment().abspath() /
+                              SequenceFile::data_fname(
+                                  i.first, this->segment().format()),
+                          O_RDONLY);
+            fd.fdatasync();
+        }
+
     auto reader = this->segment().reader(lock);
     return scanner.scan(reporter, reader, dest);
 }
diff --git a/arki/segment/data/fd.cc b/arki/segment/data/fd.cc
index e4198eb..7082956 100644
--- a/arki/segment/data/fd.cc
+++ b/arki/segment/data/fd.cc
@@ -331,6 +331,16 @@ bool Checker<Data, File>::rescan_data(
     std::function<void(const std::string&)>,
     std::shared_ptr<const core::ReadLock> lock, metadata_dest_func dest)
 {
+    // What is found is going to be recorded as the contents of the segment, but
+    // it may come from an interrupted import, and be still waiting to be
+    // written to disk
+    if (!this->segment().session().eatmydata &&
+        std::filesystem::exists(this->segment().abspath()))
+    {
+        core::File fd(this->segment().abspath(), O_RDONLY);
+        fd.fdatasync();
+    }
+
     auto reader = this->data().reader(lock);
     return reader->scan_data(dest);
 }
-- 
2.43.0


From 9fc330b0959c484139b0ae233edba2b6cf431cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:24 +0000
Subject: [PATCH 09/70] fix: do not terminate when closing a temporary metadata
 file fails

---
 arki/metadata/collection.cc | 12 ++++++++++--
 arki/segment/metadata.cc    | 24 +++++++++++++++++-------
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/arki/metadata/collection.cc b/arki/metadata/collection.cc
index 92ec610..a8c0ebc 100644
--- a/arki/metadata/collection.cc
+++ b/arki/metadata/collection.cc
@@ -98,11 +98,19 @@ struct AtomicWriter
         std::filesystem::rename(out.path(), destfname);
     }
 
-    void rollback()
+    void rollback() noexcept
     {
         if (!out)
             return;
-        out.close();
+        // This runs in the destructor: if close fails there is nothing left to
+        // save, and the error that caused the rollback is already on its way
+        try
+        {
+            out.close();
+        }
+        catch (std::exception&)
+        {
+        }
         ::unlink(out.path().c_str());
     }
 };
diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index e2f1d1f..1878ba1 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -146,18 +146,28 @@ struct AtomicWriterWithSummary
         }
     }
 
-    void rollback()
+    void rollback() noexcept
     {
-        if (out_md)
+        rollback(out_md);
+        rollback(out_sum);
+    }
+
+    /**
+     * This runs in the destructor: if close fails there is nothing left to
+     * save, and the error that caused the rollback is already on its way
+     */
+    static void rollback(sys::File& out) noexcept
+    {
+        if (!out)
+            return;
+        try
         {
-            out_md.close();
-            ::unlink(out_md.path().c_str());
+            out.close();
         }
-        if (out_sum)
+        catch (std::exception&)
         {
-            out_sum.close();
-            ::unlink(out_sum.path().c_str());
         }
+        ::unlink(out.path().c_str());
     }
 };
 
-- 
2.43.0


From 51644fc700f02ebfbfa69eb84a8f48d1d7168e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:30 +0000
Subject: [PATCH 10/70] fix: write metadata and summaries in full when a write
 is interrupted

---
 arki/metadata/collection.cc | 6 +++---
 arki/summary.cc             | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/arki/metadata/collection.cc b/arki/metadata/collection.cc
index a8c0ebc..986dd8d 100644
--- a/arki/metadata/collection.cc
+++ b/arki/metadata/collection.cc
@@ -150,12 +150,12 @@ static void compressAndWrite(const std::vector<uint8_t>& buf,
         enc.add_unsigned(0u, 2);              // Version 0: LZO compressed
         enc.add_unsigned(obuf.size() + 4, 4); // Compressed len
         enc.add_unsigned(buf.size(), 4);      // Uncompressed len
-        out.write(tmp.data(), tmp.size());
-        out.write((const char*)obuf.data(), obuf.size());
+        out.write_all_or_retry(tmp.data(), tmp.size());
+        out.write_all_or_retry((const char*)obuf.data(), obuf.size());
     }
     else
         // Write the plain metadata
-        out.write(buf.data(), buf.size());
+        out.write_all_or_retry(buf.data(), buf.size());
 }
 
 static stream::SendResult compressAndWrite(const std::vector<uint8_t>& buf,
diff --git a/arki/summary.cc b/arki/summary.cc
index 8fccee6..4ed911e 100644
--- a/arki/summary.cc
+++ b/arki/summary.cc
@@ -243,7 +243,7 @@ void Summary::write(NamedFileDescriptor& out) const
     iotrace::trace_file(out, 0, encoded.size(), "write summary");
 
     // Write out
-    out.write(encoded.data(), encoded.size());
+    out.write_all_or_retry(encoded.data(), encoded.size());
 }
 
 stream::SendResult Summary::write(StreamOutput& out) const
-- 
2.43.0


From 2823d1c2586febd8ab56a935bd660b4126ac7ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:04 +0000
Subject: [PATCH 11/70] fix: gzip segments: do not return garbage after a read
 error

---
 arki/utils/compress.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/arki/utils/compress.cc b/arki/utils/compress.cc
index 8540afd..6ee3141 100644
--- a/arki/utils/compress.cc
+++ b/arki/utils/compress.cc
@@ -245,21 +245,26 @@ std::vector<uint8_t> SeekIndexReader::read(size_t offset, size_t size)
         // Open the compressed chunk
         int fd1 = fd.dup();
         utils::gzip::File gzfd(fd.path(), fd1, "rb");
-        last_group_offset = idx.ofs_unc[block];
         acct::gzip_idx_reposition_count.incr();
 
+        std::vector<uint8_t> group;
         if (block + 1 >= idx.ofs_comp.size())
         {
             // Decompress until the end of the file
-            last_group = gzfd.read_all();
+            group = gzfd.read_all();
         }
         else
         {
             // Read and uncompress the compressed chunk
             size_t unc_size = idx.ofs_unc[block + 1] - idx.ofs_unc[block];
-            last_group.resize(unc_size);
-            gzfd.read_all_or_throw(last_group.data(), last_group.size());
+            group.resize(unc_size);
+            gzfd.read_all_or_throw(group.data(), group.size());
         }
+
+        // Replace the cached group only once the new one has been read: if
+        // reading fails, the next read must not be served from a broken cache
+        last_group        = std::move(group);
+        last_group_offset = idx.ofs_unc[block];
     }
     size_t group_offset = offset - last_group_offset;
     if (group_offset + size > last_group.size())
-- 
2.43.0


From 6376b01c62e270202a941003eace8fb4b46c07a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:38 +0000
Subject: [PATCH 12/70] fix: repacking an indexed .gz segment wrote the result
 over the wrong file

---
 arki/segment/data/gz.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/arki/segment/data/gz.cc b/arki/segment/data/gz.cc
index 0bab34b..a297d41 100644
--- a/arki/segment/data/gz.cc
+++ b/arki/segment/data/gz.cc
@@ -254,8 +254,10 @@ core::Pending Checker<Data>::repack(Collection& mds, const RepackConfig& cfg)
     {
         finalize->on_commit =
             [&](const std::vector<std::filesystem::path>& tmpfiles) {
+                // Remove the old index first: a .gz without index can be read,
+                // a .gz with the index of another one cannot
+                std::filesystem::remove(gzidxabspath);
                 std::filesystem::rename(tmpfiles[0], gzabspath);
-                std::filesystem::remove(sys::with_suffix(gzabspath, ".idx"));
             };
 
         Creator creator(this->segment(), mds, tmpabspath);
@@ -271,9 +273,11 @@ core::Pending Checker<Data>::repack(Collection& mds, const RepackConfig& cfg)
         finalize->tmpfiles.push_back(tmpidxabspath);
         finalize->on_commit =
             [&](const std::vector<std::filesystem::path>& tmpfiles) {
-                std::filesystem::rename(tmpfiles[0], this->segment().abspath());
-                if (!sys::rename_ifexists(tmpfiles[1], gzidxabspath))
-                    std::filesystem::remove(gzidxabspath);
+                // Remove the old index first: a .gz without index can be read,
+                // a .gz with the index of another one cannot
+                std::filesystem::remove(gzidxabspath);
+                std::filesystem::rename(tmpfiles[0], gzabspath);
+                sys::rename_ifexists(tmpfiles[1], gzidxabspath);
             };
 
         Creator creator(this->segment(), mds, tmpabspath, tmpidxabspath,
-- 
2.43.0


From 10c40a45d9d884c4c6304428d087f5974e7799e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:38 +0000
Subject: [PATCH 13/70] fix: arki-check --remove ignored data in segments
 converted to gz, tar, or zip

---
 arki/dataset/segmented.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/arki/dataset/segmented.cc b/arki/dataset/segmented.cc
index 134e204..7d78af2 100644
--- a/arki/dataset/segmented.cc
+++ b/arki/dataset/segmented.cc
@@ -6,6 +6,7 @@
 #include "arki/metadata.h"
 #include "arki/metadata/collection.h"
 #include "arki/nag.h"
+#include "arki/segment/data.h"
 #include "arki/types/reftime.h"
 #include "arki/types/source.h"
 #include "arki/types/source/blob.h"
@@ -424,7 +425,11 @@ void Checker::remove(const metadata::Collection& mds)
         auto relpath    = sys::with_suffix(dataset().step()(time),
                                            "."s + format_name(source->format));
 
-        if (!dataset().segment_session->is_segment(relpath))
+        // Skip segments that do not exist, looking also for those that have
+        // been converted to .gz, .tar, or .zip
+        auto segment =
+            dataset().segment_session->segment_from_relpath(relpath);
+        if (!segment::Data::create(segment)->exists_on_disk())
             continue;
 
         by_segment[relpath].emplace(source->offset);
-- 
2.43.0


From af3ecf8673b86ed57aa898ffa93930f1e0633212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:38 +0000
Subject: [PATCH 14/70] fix: converting a segment whose data has all been
 removed

---
 arki/segment/metadata.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index 1878ba1..afa79c5 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -741,7 +741,7 @@ Fixer::ConvertResult Fixer::tar()
 
     // Align metadata timestamps to that of the new segment
     sys::touch(path_metadata, res.segment_mtime);
-    sys::touch(path_summary, res.segment_mtime);
+    sys::touch_ifexists(path_summary, res.segment_mtime);
 
     return res;
 }
@@ -787,7 +787,7 @@ Fixer::ConvertResult Fixer::zip()
 
     // Align metadata timestamps to that of the new segment
     sys::touch(path_metadata, res.segment_mtime);
-    sys::touch(path_summary, res.segment_mtime);
+    sys::touch_ifexists(path_summary, res.segment_mtime);
 
     return res;
 }
@@ -835,7 +835,7 @@ Fixer::ConvertResult Fixer::compress(unsigned groupsize)
 
     // Align metadata timestamps to that of the new segment
     sys::touch(path_metadata, res.segment_mtime);
-    sys::touch(path_summary, res.segment_mtime);
+    sys::touch_ifexists(path_summary, res.segment_mtime);
 
     return res;
 }
-- 
2.43.0


From c54842b4c3b75daf406cefc2e8da762a16e14843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:28 +0000
Subject: [PATCH 15/70] fix: simple datasets: keep the manifest up to date when
 part of an import fails

---
 arki/dataset/simple/writer.cc | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/arki/dataset/simple/writer.cc b/arki/dataset/simple/writer.cc
index 3ca89b8..31cd1a7 100644
--- a/arki/dataset/simple/writer.cc
+++ b/arki/dataset/simple/writer.cc
@@ -57,19 +57,31 @@ void Writer::acquire_batch(metadata::InboundBatch& batch,
     auto lock = dataset().append_lock_dataset();
     manifest.reread();
     bool changed = false;
-    for (auto& s : by_segment)
+    try
     {
-        auto segment = dataset().segment_session->segment_from_relpath(s.first);
-        auto writer  = segment->writer(lock);
-        auto res     = writer->acquire(s.second, writer_config);
-        if (res.count_ok > 0)
+        for (auto& s : by_segment)
         {
-            manifest.set(segment->relpath(), res.segment_mtime,
-                         res.data_timespan);
-            invalidate_summary();
-            changed = true;
+            auto segment =
+                dataset().segment_session->segment_from_relpath(s.first);
+            auto writer = segment->writer(lock);
+            auto res    = writer->acquire(s.second, writer_config);
+            if (res.count_ok > 0)
+            {
+                manifest.set(segment->relpath(), res.segment_mtime,
+                             res.data_timespan);
+                invalidate_summary();
+                changed = true;
+            }
         }
     }
+    catch (...)
+    {
+        // Data already acquired in the other segments is there to stay: do not
+        // leave it out of the manifest
+        if (changed)
+            manifest.flush();
+        throw;
+    }
     if (changed)
         manifest.flush();
 }
-- 
2.43.0


From 1447155174ff8605f6953a2ead156630ac5d22cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:23 +0000
Subject: [PATCH 16/70] fix: simple datasets: removing a segment must
 invalidate the dataset summary

---
 arki/dataset/simple/checker.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arki/dataset/simple/checker.cc b/arki/dataset/simple/checker.cc
index 6568bed..800c8d7 100644
--- a/arki/dataset/simple/checker.cc
+++ b/arki/dataset/simple/checker.cc
@@ -160,6 +160,7 @@ public:
     {
         dataset_checker.manifest.remove(segment->relpath());
         dataset_checker.manifest.flush();
+        invalidate_dataset_summary();
     }
 
     void post_convert(std::shared_ptr<segment::Fixer>,
-- 
2.43.0


From 7a5b11a03034d6db9b0d17d8d859ebd4e8062a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:11 +0000
Subject: [PATCH 17/70] fix: iseg datasets: maintenance must invalidate the
 cached summaries of the segments it changes

---
 arki/dataset/iseg/checker.cc | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/arki/dataset/iseg/checker.cc b/arki/dataset/iseg/checker.cc
index f119fed..7b5b155 100644
--- a/arki/dataset/iseg/checker.cc
+++ b/arki/dataset/iseg/checker.cc
@@ -45,6 +45,16 @@ public:
     }
     ~CheckerSegment() {}
 
+    /// Remove the cached summaries covering the data in this segment
+    void invalidate_summary_cache()
+    {
+        core::Interval interval;
+        if (!dataset().step().path_timespan(segment->relpath(), interval))
+            return;
+        index::SummaryCache scache(dataset().summary_cache_pathname);
+        scache.invalidate(interval.begin, interval.end);
+    }
+
     CIndex& idx()
     {
         return static_pointer_cast<segment::iseg::Checker>(segment_checker)
@@ -106,6 +116,17 @@ public:
         return res;
     }
 
+    void post_remove_data(std::shared_ptr<segment::Fixer>,
+                          segment::Fixer::MarkRemovedResult&) override
+    {
+        invalidate_summary_cache();
+    }
+
+    void pre_remove(std::shared_ptr<segment::Fixer>) override
+    {
+        invalidate_summary_cache();
+    }
+
     void index(metadata::Collection&& mds) override
     {
         auto fixer = segment_checker->fixer();
@@ -114,6 +135,7 @@ public:
         // Remove .metadata and .summary files
         std::filesystem::remove(segment->abspath_metadata());
         std::filesystem::remove(segment->abspath_summary());
+        invalidate_summary_cache();
     }
 
     void rescan(dataset::Reporter& reporter) override
@@ -130,6 +152,7 @@ public:
 
         auto fixer = segment_checker->fixer();
         fixer->reindex(mds);
+        invalidate_summary_cache();
     }
 
     arki::metadata::Collection
@@ -140,6 +163,7 @@ public:
         auto fixer               = segment_checker->fixer();
         fixer->move_data(
             new_segment_session->segment_from_relpath(new_relpath));
+        invalidate_summary_cache();
         return mds;
     }
 };
-- 
2.43.0


From 9ef1fd0396a29eedac580d0f0bef8a5c49bf098c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:41 +0000
Subject: [PATCH 18/70] fix: arki-check --remove-old --offline removed archived
 data of any age

---
 arki/dataset/archive.cc   | 28 +++++++++++++++++++++++++++-
 arki/dataset/archive.h    |  3 +++
 arki/dataset/segmented.cc |  3 ++-
 3 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/arki/dataset/archive.cc b/arki/dataset/archive.cc
index 50b8cfb..c2a861a 100644
--- a/arki/dataset/archive.cc
+++ b/arki/dataset/archive.cc
@@ -7,8 +7,10 @@
 #include "arki/utils/string.h"
 #include "arki/utils/sys.h"
 #include "offline.h"
+#include "reporter.h"
 #include "simple.h"
 #include "simple/manifest.h"
+#include "time.h"
 #include <ctime>
 #include <fcntl.h>
 
@@ -399,8 +401,32 @@ void Checker::segments_recursive(
 
 void Checker::remove_old(CheckerConfig& opts)
 {
+    if (dataset().delete_age == -1)
+        return;
+    auto threshold = SessionTime::get().age_threshold(dataset().delete_age);
+
     archives->iter([&](dataset::Checker& a) {
-        a.remove_all(opts);
+        auto sc = dynamic_cast<segmented::Checker*>(&a);
+        if (!sc)
+            return true;
+        sc->segments(opts, [&](segmented::CheckerSegment& segment) {
+            core::Interval interval;
+            if (!sc->dataset().relpath_timespan(segment.path_relative(),
+                                                interval))
+                return;
+            if (threshold < interval.end)
+                return;
+            if (opts.readonly)
+                opts.reporter->segment_remove(
+                    sc->name(), segment.path_relative(), "should be deleted");
+            else
+            {
+                auto freed = segment.remove(true);
+                opts.reporter->segment_remove(
+                    sc->name(), segment.path_relative(),
+                    "deleted (" + std::to_string(freed) + " freed)");
+            }
+        });
         return true;
     });
 }
diff --git a/arki/dataset/archive.h b/arki/dataset/archive.h
index 76a3548..f7701d7 100644
--- a/arki/dataset/archive.h
+++ b/arki/dataset/archive.h
@@ -35,6 +35,9 @@ public:
     std::shared_ptr<segment::Session> segment_session;
     std::string step_name;
 
+    /// Delete age of the dataset these archives belong to, or -1 if not set
+    int delete_age = -1;
+
     Dataset(std::shared_ptr<Session> session, const std::filesystem::path& root,
             const std::string& step_name);
 
diff --git a/arki/dataset/segmented.cc b/arki/dataset/segmented.cc
index 7d78af2..ecce6ea 100644
--- a/arki/dataset/segmented.cc
+++ b/arki/dataset/segmented.cc
@@ -111,6 +111,7 @@ std::shared_ptr<archive::Dataset> Dataset::archive()
     {
         m_archive = std::shared_ptr<archive::Dataset>(
             new archive::Dataset(session, path / ".archive", step_name));
+        m_archive->delete_age = delete_age;
         m_archive->set_parent(this);
     }
     return m_archive;
@@ -378,7 +379,7 @@ void Checker::remove_old(CheckerConfig& opts)
         }
     });
 
-    local::Checker::remove_all(opts);
+    local::Checker::remove_old(opts);
 }
 
 void Checker::remove_all(CheckerConfig& opts)
-- 
2.43.0


From 27ebbca1b4bf3ef87b610cbf77420c64c1c66068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:26 +0000
Subject: [PATCH 19/70] fix: removed data came back, or data disappeared, when
 a segment has a timestamp in the future

---
 arki/segment/metadata.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index afa79c5..9fa49ee 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -645,6 +645,11 @@ Fixer::MarkRemovedResult Fixer::mark_removed(const std::set<uint64_t>& offsets)
     }
     res.segment_mtime =
         get_data_mtime_after_fix(checker().data, "removal in metadata");
+
+    // Align timestamps to that of the segment data
+    sys::touch(segment().abspath_metadata(), res.segment_mtime);
+    sys::touch_ifexists(segment().abspath_summary(), res.segment_mtime);
+
     return res;
 }
 
@@ -845,6 +850,14 @@ void Fixer::reindex(arki::metadata::Collection& mds)
     AtomicWriterWithSummary writer(segment());
     writer.write(mds);
     writer.commit();
+
+    // Align timestamps to that of the segment data: if the data has a timestamp
+    // in the future, the new metadata would otherwise be considered outdated
+    if (auto ts = checker().data->timestamp())
+    {
+        sys::touch(segment().abspath_metadata(), ts.value());
+        sys::touch_ifexists(segment().abspath_summary(), ts.value());
+    }
 }
 
 void Fixer::move(std::shared_ptr<arki::Segment> dest)
-- 
2.43.0


From c48a18bfea08014fe2dc08d4b1e0c9b02ca97db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:05 +0000
Subject: [PATCH 20/70] fix: flush summaries to disk before renaming them into
 place, and do not leave temporary files behind

---
 arki/utils/sys.cc | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/arki/utils/sys.cc b/arki/utils/sys.cc
index 05c7f37..3979db5 100644
--- a/arki/utils/sys.cc
+++ b/arki/utils/sys.cc
@@ -1154,15 +1154,27 @@ void write_file_atomically(const std::filesystem::path& file, const void* data,
     umask(mask);
 
     // Set the file permissions, honoring umask
-    out.fchmod(mode & ~mask);
+    try
+    {
+        out.fchmod(mode & ~mask);
 
-    out.write_all_or_retry(data, size);
-    out.close();
+        out.write_all_or_retry(data, size);
 
-    if (::rename(out.path().c_str(), file.c_str()) < 0)
-        throw std::system_error(errno, std::system_category(),
-                                "cannot rename "s + out.path().native() +
-                                    " to " + file.native());
+        // Make sure the contents hit the disk before the rename does, or after
+        // a crash the new file may be found empty
+        out.fdatasync();
+        out.close();
+
+        if (::rename(out.path().c_str(), file.c_str()) < 0)
+            throw std::system_error(errno, std::system_category(),
+                                    "cannot rename "s + out.path().native() +
+                                        " to " + file.native());
+    }
+    catch (...)
+    {
+        ::unlink(out.path().c_str());
+        throw;
+    }
 }
 
 #if 0
-- 
2.43.0


From 31176d451bb55879b69ea8c7e2ea53f466e5312a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:31 +0000
Subject: [PATCH 21/70] fix: simple datasets: check must drop the dataset
 summary, that an interrupted operation may have left outdated

---
 arki/dataset/simple/checker.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arki/dataset/simple/checker.cc b/arki/dataset/simple/checker.cc
index 800c8d7..88fa12d 100644
--- a/arki/dataset/simple/checker.cc
+++ b/arki/dataset/simple/checker.cc
@@ -256,6 +256,12 @@ void Checker::check(CheckerConfig& opts)
 {
     segmented::Checker::check(opts);
     manifest.flush();
+
+    // An interrupted operation may have changed segments without getting to
+    // invalidate the dataset summary. It is only a cache: drop it, and let it
+    // be regenerated when needed
+    if (!opts.readonly)
+        std::filesystem::remove(dataset().path / "summary");
 }
 
 std::unique_ptr<segmented::CheckerSegment>
-- 
2.43.0


From 6dd0fc328ac2749e3529bf67a56a7f751e0ef328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:21 +0000
Subject: [PATCH 22/70] fix: implement scanning of tar segments, so that check
 --fix can repair an interrupted conversion

---
 arki/segment/data/tar.cc | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/arki/segment/data/tar.cc b/arki/segment/data/tar.cc
index a81cd5a..a5c23a3 100644
--- a/arki/segment/data/tar.cc
+++ b/arki/segment/data/tar.cc
@@ -181,8 +181,43 @@ Reader::Reader(std::shared_ptr<const Data> data,
 
 bool Reader::scan_data(metadata_dest_func dest)
 {
-    throw std::runtime_error(std::string(data().type()) +
-                             " scanning is not yet implemented");
+    auto scanner = arki::data::Scanner::get(segment().format());
+
+    // Scan the archive members one by one
+    off_t pos = 0;
+    while (true)
+    {
+        TarHeader header;
+        if (fd.pread(header.data, sizeof(header.data), pos) !=
+            sizeof(header.data))
+            throw_runtime_error("cannot scan ", fd.path(),
+                                ": archive is truncated at offset ", pos);
+
+        // The archive ends with an empty block
+        if (header.data[0] == 0)
+            return true;
+
+        size_t size      = strtoull(header.data + 124, nullptr, 8);
+        off_t offset     = pos + sizeof(header.data);
+        const char* name = header.data;
+        char typeflag    = header.data[156];
+        pos              = offset + (size + 511) / 512 * 512;
+
+        // Skip PAX headers and anything that is not a file
+        if (typeflag != '0' && typeflag != 0)
+            continue;
+
+        std::vector<uint8_t> buf(size);
+        if ((size_t)fd.pread(buf.data(), size, offset) != size)
+            throw_runtime_error("cannot scan ", fd.path(), ": member ", name,
+                                " is truncated");
+
+        auto md = scanner->scan_data(buf);
+        md->set_source(
+            types::Source::createBlob(segment().reader(lock), offset, size));
+        if (!dest(std::move(md)))
+            return false;
+    }
 }
 
 std::vector<uint8_t> Reader::read(const types::source::Blob& src)
-- 
2.43.0


From 660788473f47576bd7d498dd552027ca4cac2a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:21 +0000
Subject: [PATCH 23/70] fix: remove the stale summary before recording that all
 data in a segment has been removed

---
 arki/segment/metadata.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index 9fa49ee..c09b403 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -631,8 +631,8 @@ Fixer::MarkRemovedResult Fixer::mark_removed(const std::set<uint64_t>& offsets)
     {
         auto path_metadata = segment().abspath_metadata();
         auto path_summary  = segment().abspath_summary();
+        std::filesystem::remove(path_summary);
         mds.writeAtomically(path_metadata);
-        std::filesystem::remove(segment().abspath_summary());
         res.data_timespan = core::Interval();
     }
     else
-- 
2.43.0


From 970068cad678460007e97fdf29236f58b2916f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:55 +0000
Subject: [PATCH 24/70] fix: dir segments: importing duplicates made the
 segment look newer than its index, and check brought back removed data

---
 arki/segment/data/dir.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/arki/segment/data/dir.cc b/arki/segment/data/dir.cc
index 715ffe6..874f9b1 100644
--- a/arki/segment/data/dir.cc
+++ b/arki/segment/data/dir.cc
@@ -528,9 +528,15 @@ template <typename Data> void BaseWriter<Data>::commit()
 {
     if (this->fired)
         return;
-    seqfile.write_sequence(current_pos - 1);
-    if (!this->segment().session().eatmydata)
-        seqfile.fdatasync();
+    // If nothing was appended (for example, because all data were duplicates),
+    // do not touch the sequence file, or the segment would look newer than its
+    // index
+    if (!pending.empty())
+    {
+        seqfile.write_sequence(current_pos - 1);
+        if (!this->segment().session().eatmydata)
+            seqfile.fdatasync();
+    }
     for (auto& p : pending)
         p.set_source();
     pending.clear();
-- 
2.43.0


From 8e9645e1d19b01f809929013b9662e0a3d56e644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:10 +0000
Subject: [PATCH 25/70] fix: iseg datasets: check must drop the cached
 summaries, that an interrupted operation may have left outdated

---
 arki/dataset/index/summarycache.cc | 10 +++-------
 arki/dataset/iseg/checker.cc       | 15 +++++++++++++++
 arki/dataset/iseg/checker.h        |  1 +
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/arki/dataset/index/summarycache.cc b/arki/dataset/index/summarycache.cc
index e20446a..4a696f1 100644
--- a/arki/dataset/index/summarycache.cc
+++ b/arki/dataset/index/summarycache.cc
@@ -132,14 +132,10 @@ void SummaryCache::invalidate(const metadata::InboundBatch& batch)
 
 void SummaryCache::invalidate(const Time& tmin, const Time& tmax)
 {
-    bool deleted = false;
     for (Time t = tmin; t <= tmax; t = t.start_of_next_month())
-    {
-        if (std::filesystem::remove(summary_pathname(t.ye, t.mo)))
-            deleted = true;
-    }
-    if (deleted)
-        std::filesystem::remove(m_scache_root / "all.summary");
+        std::filesystem::remove(summary_pathname(t.ye, t.mo));
+    // Note that the global summary may exist without the monthly ones
+    std::filesystem::remove(m_scache_root / "all.summary");
 }
 
 bool SummaryCache::check(const dataset::Base& ds, Reporter& reporter) const
diff --git a/arki/dataset/iseg/checker.cc b/arki/dataset/iseg/checker.cc
index 7b5b155..6b05b0a 100644
--- a/arki/dataset/iseg/checker.cc
+++ b/arki/dataset/iseg/checker.cc
@@ -260,6 +260,21 @@ void Checker::segments_untracked_filtered(
         });
 }
 
+void Checker::check(CheckerConfig& opts)
+{
+    segmented::Checker::check(opts);
+
+    // An interrupted operation may have changed segments without getting to
+    // invalidate the summaries. They are only a cache: drop them, and let them
+    // be regenerated when needed
+    if (!opts.readonly &&
+        std::filesystem::exists(dataset().summary_cache_pathname))
+    {
+        index::SummaryCache scache(dataset().summary_cache_pathname);
+        scache.invalidate();
+    }
+}
+
 void Checker::check_issue51(CheckerConfig& opts)
 {
     if (!opts.online && !dataset().offline)
diff --git a/arki/dataset/iseg/checker.h b/arki/dataset/iseg/checker.h
index a985c09..63ea139 100644
--- a/arki/dataset/iseg/checker.h
+++ b/arki/dataset/iseg/checker.h
@@ -42,6 +42,7 @@ public:
     void segments_untracked_filtered(
         const Matcher& matcher,
         std::function<void(segmented::CheckerSegment& segment)>) override;
+    void check(CheckerConfig& opts) override;
     void check_issue51(CheckerConfig& opts) override;
     size_t vacuum(dataset::Reporter& reporter) override;
 
-- 
2.43.0


From 633ed1921cd708dd07645c3b18b8eb3327d68041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:10 +0000
Subject: [PATCH 26/70] fix: do not terminate when a simple dataset checker
 cannot write the manifest while closing

---
 arki/dataset/simple/checker.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/arki/dataset/simple/checker.cc b/arki/dataset/simple/checker.cc
index 88fa12d..f606465 100644
--- a/arki/dataset/simple/checker.cc
+++ b/arki/dataset/simple/checker.cc
@@ -242,7 +242,18 @@ Checker::Checker(std::shared_ptr<simple::Dataset> dataset)
     manifest.reread();
 }
 
-Checker::~Checker() { manifest.flush(); }
+Checker::~Checker()
+{
+    try
+    {
+        manifest.flush();
+    }
+    catch (std::exception& e)
+    {
+        nag::warning("%s: cannot write the manifest: %s",
+                     dataset().path.c_str(), e.what());
+    }
+}
 
 std::string Checker::type() const { return "simple"; }
 
-- 
2.43.0


From 2525354d9a230e7d614889493490141ceac69056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:10 +0000
Subject: [PATCH 27/70] fix: repack: flush the new segment to disk before it
 replaces the old one

---
 arki/segment/data/fd.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/arki/segment/data/fd.cc b/arki/segment/data/fd.cc
index 7082956..5d1dafd 100644
--- a/arki/segment/data/fd.cc
+++ b/arki/segment/data/fd.cc
@@ -628,6 +628,9 @@ core::Pending Checker::repack(Collection& mds, const RepackConfig&)
         core::File in(this->segment().abspath(), O_RDONLY);
         core::File out(tmpabspath, O_WRONLY | O_CREAT | O_TRUNC, 0666);
         plan.execute(in, out);
+        // Make sure the data is on disk before it replaces the original
+        out.fdatasync();
+        out.close();
     }
 
     // Release locks on the source segment, which is about to go away
-- 
2.43.0


From 83bd863f4b2cb4554e1ba1fdc2b2724224ee874f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:10 +0000
Subject: [PATCH 28/70] fix: dir segments: an interrupted removal or repack
 must not look like a segment that lost its data

---
 arki/segment/data/dir.cc | 76 ++++++++++++++++++++++++++++++----------
 arki/segment/data/dir.h  |  3 ++
 2 files changed, 61 insertions(+), 18 deletions(-)

diff --git a/arki/segment/data/dir.cc b/arki/segment/data/dir.cc
index 874f9b1..1129063 100644
--- a/arki/segment/data/dir.cc
+++ b/arki/segment/data/dir.cc
@@ -33,6 +33,15 @@ namespace arki::segment::data::dir {
 
 namespace {
 
+// Name for a temporary directory used while working on a segment, that does
+// not get mistaken for data when looking for segments
+std::filesystem::path hidden_path(const std::filesystem::path& abspath,
+                                  const std::string& suffix)
+{
+    return abspath.parent_path() /
+           ("." + abspath.filename().native() + suffix);
+}
+
 struct Creator : public AppendCreator
 {
     std::filesystem::path dest_abspath;
@@ -667,9 +676,17 @@ void BaseChecker<Data>::validate(Metadata& md, const arki::data::Validator& v)
 template <typename Data>
 void BaseChecker<Data>::foreach_datafile(std::function<void(const char*)> f)
 {
-    sys::Path dir(this->segment().abspath());
+    foreach_datafile(this->segment().abspath(), this->segment(), f);
+}
+
+template <typename Data>
+void BaseChecker<Data>::foreach_datafile(const std::filesystem::path& path,
+                                         const Segment& segment,
+                                         std::function<void(const char*)> f)
+{
+    sys::Path dir(path);
     std::string ext(".");
-    ext += format_name(this->segment().format());
+    ext += format_name(segment.format());
     for (sys::Path::iterator i = dir.begin(); i != dir.end(); ++i)
     {
         if (!i.isreg())
@@ -684,17 +701,25 @@ void BaseChecker<Data>::foreach_datafile(std::function<void(const char*)> f)
 
 template <typename Data> size_t BaseChecker<Data>::remove()
 {
+    // Hide the directory before starting to empty it, so that if we are
+    // interrupted it does not look like a segment that lost some of its data
+    const auto& abspath = this->segment().abspath();
+    auto hidden         = hidden_path(abspath, ".removed");
+    sys::rmtree_ifexists(hidden);
+
     size_t size = 0;
-    foreach_datafile([&](const char* name) {
-        filesystem::path pathname = this->segment().abspath() / name;
-        size += sys::size(pathname);
-        sys::unlink(pathname);
-    });
-    std::filesystem::remove(this->segment().abspath() / ".sequence");
-    std::filesystem::remove(this->segment().abspath() / ".write-lock");
-    std::filesystem::remove(this->segment().abspath() / ".repack-lock");
-    // Also remove the directory if it is empty
-    rmdir(this->segment().abspath().c_str());
+    foreach_datafile(
+        [&](const char* name) { size += sys::size(abspath / name); });
+    std::filesystem::rename(abspath, hidden);
+    foreach_datafile(hidden, this->segment(),
+                     [&](const char* name) { sys::unlink(hidden / name); });
+    std::filesystem::remove(hidden / ".sequence");
+    std::filesystem::remove(hidden / ".write-lock");
+    std::filesystem::remove(hidden / ".repack-lock");
+    // Also remove the directory if it is empty, else preserve what we do not
+    // know about
+    if (::rmdir(hidden.c_str()) == -1)
+        ::rename(hidden.c_str(), abspath.c_str());
     return size;
 }
 
@@ -712,7 +737,7 @@ core::Pending BaseChecker<Data>::repack(Collection& mds,
         Rename(const std::filesystem::path& tmpabspath,
                const std::filesystem::path& abspath)
             : tmpabspath(tmpabspath), abspath(abspath),
-              tmppos(sys::with_suffix(abspath, ".pre-repack")), fired(false)
+              tmppos(hidden_path(abspath, ".pre-repack")), fired(false)
         {
         }
 
@@ -727,8 +752,22 @@ core::Pending BaseChecker<Data>::repack(Collection& mds,
             if (fired)
                 return;
 
-            // It is impossible to make this atomic, so we just try to make it
-            // as quick as possible
+            // Swap the old and the new directory atomically, if it is supported
+            if (renameat2(AT_FDCWD, tmpabspath.c_str(), AT_FDCWD,
+                          abspath.c_str(), RENAME_EXCHANGE) == 0)
+            {
+                // Remove the old data
+                fired = true;
+                sys::rmtree(tmpabspath);
+                return;
+            }
+            if (errno != EINVAL && errno != ENOSYS)
+                throw_system_error("cannot exchange "s + tmpabspath.native() +
+                                   " and " + abspath.native());
+
+            // Otherwise it is impossible to make this atomic, so we just try
+            // to make it as quick as possible
+            sys::rmtree_ifexists(tmppos);
 
             // Move the old directory inside the temp dir, to free the old
             // directory name
@@ -794,10 +833,11 @@ core::Pending BaseChecker<Data>::repack(Collection& mds,
         }
     };
 
-    filesystem::path tmprelpath =
-        sys::with_suffix(this->segment().relpath(), ".repack");
     filesystem::path tmpabspath =
-        sys::with_suffix(this->segment().abspath(), ".repack");
+        hidden_path(this->segment().abspath(), ".repack");
+
+    // Remove what may be left of an interrupted repack
+    sys::rmtree_ifexists(tmpabspath);
 
     core::Pending p(new Rename(tmpabspath, this->segment().abspath()));
 
diff --git a/arki/segment/data/dir.h b/arki/segment/data/dir.h
index aaeb9a3..4a7d57a 100644
--- a/arki/segment/data/dir.h
+++ b/arki/segment/data/dir.h
@@ -122,6 +122,9 @@ public:
     /// Call f for each nnnnnn.format file in the directory segment, passing the
     /// file name
     void foreach_datafile(std::function<void(const char*)> f);
+    static void foreach_datafile(const std::filesystem::path& path,
+                                 const Segment& segment,
+                                 std::function<void(const char*)> f);
     void validate(Metadata& md, const arki::data::Validator& v);
     void move_data(std::shared_ptr<const Segment> new_segment) override;
 
-- 
2.43.0


From 99293ec28ed1d4ca1ce1c286bb9595a630b51eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:10 +0000
Subject: [PATCH 29/70] fix: an interrupted conversion to gz, tar or zip must
 not leave archives that hide the data later

---
 arki/segment/data.cc     | 19 +++++++++++
 arki/segment/data.h      |  9 ++++++
 arki/segment/data/gz.cc  | 70 +++++++++++++++++++++++-----------------
 arki/segment/data/tar.cc |  8 ++++-
 arki/segment/data/zip.cc |  8 ++++-
 arki/segment/iseg.cc     | 10 +++---
 arki/segment/metadata.cc | 10 +++---
 arki/segment/scan.cc     | 10 +++---
 8 files changed, 98 insertions(+), 46 deletions(-)

diff --git a/arki/segment/data.cc b/arki/segment/data.cc
index 0a06442..a21acf6 100644
--- a/arki/segment/data.cc
+++ b/arki/segment/data.cc
@@ -191,8 +191,25 @@ void Writer::PendingMetadata::set_source()
         md.drop_cached_data();
 }
 
+void Checker::remove_stale_archives()
+{
+    // This follows the precedence used in segment::Data::create
+    const auto& abspath = segment().abspath();
+    bool found          = std::filesystem::exists(abspath);
+    for (const char* suffix : {".gz", ".tar", ".zip"})
+    {
+        auto archive = sys::with_suffix(abspath, suffix);
+        if (!found)
+            found = std::filesystem::exists(archive);
+        else if (std::filesystem::remove(archive) &&
+                 archive.extension() == ".gz")
+            std::filesystem::remove(sys::with_suffix(archive, ".idx"));
+    }
+}
+
 std::shared_ptr<const segment::Data> Checker::tar(Collection& mds)
 {
+    remove_stale_archives();
     auto new_data = segment::data::tar::Data::create(segment(), mds);
     remove();
     return new_data;
@@ -200,6 +217,7 @@ std::shared_ptr<const segment::Data> Checker::tar(Collection& mds)
 
 std::shared_ptr<const segment::Data> Checker::zip(Collection& mds)
 {
+    remove_stale_archives();
     auto new_data = segment::data::zip::Data::create(segment(), mds);
     remove();
     return new_data;
@@ -208,6 +226,7 @@ std::shared_ptr<const segment::Data> Checker::zip(Collection& mds)
 std::shared_ptr<const segment::Data> Checker::compress(Collection& mds,
                                                        unsigned groupsize)
 {
+    remove_stale_archives();
     std::shared_ptr<const Data> res;
     switch (segment().format())
     {
diff --git a/arki/segment/data.h b/arki/segment/data.h
index a871bfe..18e7a07 100644
--- a/arki/segment/data.h
+++ b/arki/segment/data.h
@@ -234,6 +234,15 @@ public:
      */
     virtual size_t remove() = 0;
 
+    /**
+     * Remove other versions of this segment, converted to gz, tar or zip, that
+     * an interrupted conversion left beside the data currently in use.
+     *
+     * They are currently hidden by the data in use, but they would come back
+     * once that is removed or converted.
+     */
+    void remove_stale_archives();
+
     /**
      * Rescan the segment
      */
diff --git a/arki/segment/data/gz.cc b/arki/segment/data/gz.cc
index a297d41..50b0453 100644
--- a/arki/segment/data/gz.cc
+++ b/arki/segment/data/gz.cc
@@ -76,6 +76,45 @@ struct Creator : public AppendCreator
     }
 };
 
+// Create a segment from scratch.
+//
+// Archives are created with a temporary name, so that they never show up when
+// they are incomplete
+void create(const Segment& segment, Collection& mds, const RepackConfig& cfg,
+            bool pad_with_newlines)
+{
+    auto gzabspath    = sys::with_suffix(segment.abspath(), ".gz");
+    auto gzidxabspath = sys::with_suffix(segment.abspath(), ".gz.idx");
+    std::filesystem::path tmpidxabspath;
+
+    auto finalize = new files::FinalizeTempfilesTransaction;
+    core::Pending p(finalize);
+    finalize->tmpfiles.push_back(sys::with_suffix(gzabspath, ".repack"));
+    if (cfg.gz_group_size != 0)
+    {
+        tmpidxabspath = sys::with_suffix(gzidxabspath, ".repack");
+        finalize->tmpfiles.push_back(tmpidxabspath);
+        // Do not pick up the index of a previous, interrupted creation
+        std::filesystem::remove(tmpidxabspath);
+    }
+    finalize->on_commit =
+        [&](const std::vector<std::filesystem::path>& tmpfiles) {
+            // A .gz without index can be read, a .gz with the index of another
+            // one cannot
+            std::filesystem::remove(gzidxabspath);
+            std::filesystem::rename(tmpfiles[0], gzabspath);
+            if (tmpfiles.size() > 1)
+                sys::rename_ifexists(tmpfiles[1], gzidxabspath);
+        };
+
+    Creator creator(segment, mds, finalize->tmpfiles[0], tmpidxabspath,
+                    cfg.gz_group_size);
+    if (pad_with_newlines)
+        creator.padding.push_back('\n');
+    creator.create();
+    p.commit();
+}
+
 template <typename Data> struct CheckBackend : public AppendCheckBackend
 {
     const std::filesystem::path& gzabspath;
@@ -371,20 +410,7 @@ std::shared_ptr<data::Checker> Data::checker() const
 std::shared_ptr<const Data>
 Data::create(const Segment& segment, Collection& mds, const RepackConfig& cfg)
 {
-    if (cfg.gz_group_size == 0)
-    {
-        gz::Creator creator(segment, mds,
-                            sys::with_suffix(segment.abspath(), ".gz"));
-        creator.create();
-    }
-    else
-    {
-        gz::Creator creator(
-            segment, mds, sys::with_suffix(segment.abspath(), ".gz"),
-            sys::with_suffix(segment.abspath(), ".gz.idx"), cfg.gz_group_size);
-        creator.create();
-    }
-
+    gz::create(segment, mds, cfg, false);
     return std::make_shared<const Data>(segment.shared_from_this());
 }
 
@@ -414,21 +440,7 @@ std::shared_ptr<data::Checker> Data::checker() const
 std::shared_ptr<const Data>
 Data::create(const Segment& segment, Collection& mds, const RepackConfig& cfg)
 {
-    if (cfg.gz_group_size == 0)
-    {
-        gz::Creator creator(segment, mds,
-                            sys::with_suffix(segment.abspath(), ".gz"));
-        creator.padding.push_back('\n');
-        creator.create();
-    }
-    else
-    {
-        gz::Creator creator(
-            segment, mds, sys::with_suffix(segment.abspath(), ".gz"),
-            sys::with_suffix(segment.abspath(), ".gz.idx"), cfg.gz_group_size);
-        creator.padding.push_back('\n');
-        creator.create();
-    }
+    gz::create(segment, mds, cfg, true);
     return std::make_shared<const Data>(segment.shared_from_this());
 }
 
diff --git a/arki/segment/data/tar.cc b/arki/segment/data/tar.cc
index a5c23a3..1bd025d 100644
--- a/arki/segment/data/tar.cc
+++ b/arki/segment/data/tar.cc
@@ -163,8 +163,14 @@ bool Data::can_store(DataFormat format) { return true; }
 std::shared_ptr<const Data>
 Data::create(const Segment& segment, Collection& mds, const RepackConfig& cfg)
 {
-    Creator creator(segment, mds, sys::with_suffix(segment.abspath(), ".tar"));
+    // Create the archive with a temporary name, so that it never shows up when
+    // it is incomplete
+    auto tmpabspath = sys::with_suffix(segment.abspath(), ".repack");
+    core::Pending p(new files::RenameTransaction(
+        tmpabspath, sys::with_suffix(segment.abspath(), ".tar")));
+    Creator creator(segment, mds, tmpabspath);
     creator.create();
+    p.commit();
     return std::make_shared<const Data>(segment.shared_from_this());
 }
 
diff --git a/arki/segment/data/zip.cc b/arki/segment/data/zip.cc
index 4bfa45e..ca3f114 100644
--- a/arki/segment/data/zip.cc
+++ b/arki/segment/data/zip.cc
@@ -276,8 +276,14 @@ bool Data::can_store(DataFormat) { return true; }
 std::shared_ptr<const Data> Data::create(const Segment& segment,
                                          Collection& mds, const RepackConfig&)
 {
-    Creator creator(segment, mds, sys::with_suffix(segment.abspath(), ".zip"));
+    // Create the archive with a temporary name, so that it never shows up when
+    // it is incomplete
+    auto tmpabspath = sys::with_suffix(segment.abspath(), ".repack");
+    core::Pending p(new files::RenameTransaction(
+        tmpabspath, sys::with_suffix(segment.abspath(), ".zip")));
+    Creator creator(segment, mds, tmpabspath);
     creator.create();
+    p.commit();
     return std::make_shared<const Data>(segment.shared_from_this());
 }
 
diff --git a/arki/segment/iseg.cc b/arki/segment/iseg.cc
index 506d37a..2c189ab 100644
--- a/arki/segment/iseg.cc
+++ b/arki/segment/iseg.cc
@@ -7,6 +7,7 @@
 #include "arki/nag.h"
 #include "arki/segment/session.h"
 #include "arki/types/source/blob.h"
+#include "arki/utils/string.h"
 #include "arki/utils/sys.h"
 #include "data.h"
 #include "iseg/index.h"
@@ -647,7 +648,7 @@ size_t Fixer::remove_data()
 Fixer::ConvertResult Fixer::tar()
 {
     ConvertResult res;
-    if (std::filesystem::exists(sys::with_suffix(segment().abspath(), ".tar")))
+    if (checker().data->type() == std::string("tar"))
     {
         auto ts = checker().data->timestamp();
         if (!ts)
@@ -680,6 +681,7 @@ Fixer::ConvertResult Fixer::tar()
     // Commit the changes in the database
     pending_index.commit();
 
+    data_checker->remove_stale_archives();
     checker().update_data();
     res.segment_mtime = get_data_mtime_after_fix(new_data, "conversion to tar");
     return res;
@@ -688,7 +690,7 @@ Fixer::ConvertResult Fixer::tar()
 Fixer::ConvertResult Fixer::zip()
 {
     ConvertResult res;
-    if (std::filesystem::exists(sys::with_suffix(segment().abspath(), ".zip")))
+    if (checker().data->type() == std::string("zip"))
     {
         auto ts = checker().data->timestamp();
         if (!ts)
@@ -729,9 +731,7 @@ Fixer::ConvertResult Fixer::zip()
 Fixer::ConvertResult Fixer::compress(unsigned groupsize)
 {
     ConvertResult res;
-    if (std::filesystem::exists(sys::with_suffix(segment().abspath(), ".gz")) or
-        std::filesystem::exists(
-            sys::with_suffix(segment().abspath(), ".gz.idx")))
+    if (str::startswith(checker().data->type(), "gz"))
     {
         auto ts = checker().data->timestamp();
         if (!ts)
diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index c09b403..828315b 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -6,6 +6,7 @@
 #include "arki/nag.h"
 #include "arki/query.h"
 #include "arki/types/source/blob.h"
+#include "arki/utils/string.h"
 #include "arki/utils/sys.h"
 #include "data.h"
 #include "reporter.h"
@@ -702,13 +703,14 @@ size_t Fixer::remove(bool with_data)
 size_t Fixer::remove_data()
 {
     auto data_checker = checker().data->checker();
+    data_checker->remove_stale_archives();
     return data_checker->remove();
 }
 
 Fixer::ConvertResult Fixer::tar()
 {
     ConvertResult res;
-    if (std::filesystem::exists(sys::with_suffix(segment().abspath(), ".tar")))
+    if (checker().data->type() == std::string("tar"))
     {
         auto ts = checker().data->timestamp();
         if (!ts)
@@ -754,7 +756,7 @@ Fixer::ConvertResult Fixer::tar()
 Fixer::ConvertResult Fixer::zip()
 {
     ConvertResult res;
-    if (std::filesystem::exists(sys::with_suffix(segment().abspath(), ".zip")))
+    if (checker().data->type() == std::string("zip"))
     {
         auto ts = checker().data->timestamp();
         if (!ts)
@@ -800,9 +802,7 @@ Fixer::ConvertResult Fixer::zip()
 Fixer::ConvertResult Fixer::compress(unsigned groupsize)
 {
     ConvertResult res;
-    if (std::filesystem::exists(sys::with_suffix(segment().abspath(), ".gz")) or
-        std::filesystem::exists(
-            sys::with_suffix(segment().abspath(), ".gz.idx")))
+    if (str::startswith(checker().data->type(), "gz"))
     {
         auto ts = checker().data->timestamp();
         if (!ts)
diff --git a/arki/segment/scan.cc b/arki/segment/scan.cc
index aa1c279..44a5d03 100644
--- a/arki/segment/scan.cc
+++ b/arki/segment/scan.cc
@@ -5,6 +5,7 @@
 #include "arki/metadata/inbound.h"
 #include "arki/query.h"
 #include "arki/types/source/blob.h"
+#include "arki/utils/string.h"
 #include "arki/utils/sys.h"
 #include "data.h"
 #include "reporter.h"
@@ -331,13 +332,14 @@ size_t Fixer::remove(bool with_data)
 size_t Fixer::remove_data()
 {
     auto data_checker = checker().data->checker();
+    data_checker->remove_stale_archives();
     return data_checker->remove();
 }
 
 Fixer::ConvertResult Fixer::tar()
 {
     ConvertResult res;
-    if (std::filesystem::exists(sys::with_suffix(segment().abspath(), ".tar")))
+    if (checker().data->type() == std::string("tar"))
     {
         auto ts = checker().data->timestamp();
         if (!ts)
@@ -371,7 +373,7 @@ Fixer::ConvertResult Fixer::tar()
 Fixer::ConvertResult Fixer::zip()
 {
     ConvertResult res;
-    if (std::filesystem::exists(sys::with_suffix(segment().abspath(), ".zip")))
+    if (checker().data->type() == std::string("zip"))
     {
         auto ts = checker().data->timestamp();
         if (!ts)
@@ -405,9 +407,7 @@ Fixer::ConvertResult Fixer::zip()
 Fixer::ConvertResult Fixer::compress(unsigned groupsize)
 {
     ConvertResult res;
-    if (std::filesystem::exists(sys::with_suffix(segment().abspath(), ".gz")) or
-        std::filesystem::exists(
-            sys::with_suffix(segment().abspath(), ".gz.idx")))
+    if (str::startswith(checker().data->type(), "gz"))
     {
         auto ts = checker().data->timestamp();
         if (!ts)
-- 
2.43.0


From 51035756cbb745aa89c8732c5f22827ecf4df64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:10 +0000
Subject: [PATCH 30/70] fix: iseg segments: detect that replacing the data was
 interrupted before updating the index

---
 arki/segment/iseg.cc | 48 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/arki/segment/iseg.cc b/arki/segment/iseg.cc
index 2c189ab..5e472fe 100644
--- a/arki/segment/iseg.cc
+++ b/arki/segment/iseg.cc
@@ -32,6 +32,34 @@ bool has_valid_iseg_index(std::shared_ptr<const Segment> segment)
     return true;
 }
 
+namespace {
+
+/**
+ * File that marks a segment whose data is being replaced.
+ *
+ * The data file and the index cannot be updated in one go: if we are interrupted
+ * between one and the other, the index does not match the data anymore, and its
+ * timestamp cannot be trusted to tell (see Checker::fsck). The marker tells
+ * fsck that the segment needs to be rescanned.
+ */
+std::filesystem::path rescan_marker(const arki::Segment& segment)
+{
+    return sys::with_suffix(segment.abspath(), ".needs-rescan");
+}
+
+void set_rescan_marker(const arki::Segment& segment)
+{
+    sys::File out(rescan_marker(segment), O_WRONLY | O_CREAT, 0666);
+    out.close();
+}
+
+void clear_rescan_marker(const arki::Segment& segment)
+{
+    std::filesystem::remove(rescan_marker(segment));
+}
+
+} // namespace
+
 /*
  * Session
  */
@@ -482,6 +510,14 @@ Checker::FsckResult Checker::fsck(segment::Reporter& reporter, bool quick)
         return res;
     }
 
+    if (std::filesystem::exists(rescan_marker(segment())))
+    {
+        reporter.info(segment(), "an operation that replaces the segment data "
+                                 "has been interrupted");
+        res.state = SEGMENT_UNALIGNED;
+        return res;
+    }
+
     /**
      * Although iseg could detect if the data of a segment is newer than its
      * index, the timestamp of the index is updated by various kinds of sqlite
@@ -615,10 +651,12 @@ Fixer::ReorderResult Fixer::reorder(arki::metadata::Collection& mds,
     }
 
     // Commit the changes in the file system
+    set_rescan_marker(segment());
     pending_repack.commit();
 
     // Commit the changes in the database
     pending_index.commit();
+    clear_rescan_marker(segment());
 
     index.vacuum();
 
@@ -632,6 +670,7 @@ size_t Fixer::remove(bool with_data)
 {
     size_t res = 0;
     res += remove_ifexists(segment().abspath_iseg_index());
+    clear_rescan_marker(segment());
 
     if (!with_data)
         return res;
@@ -642,6 +681,7 @@ size_t Fixer::remove(bool with_data)
 size_t Fixer::remove_data()
 {
     auto data_checker = checker().data->checker();
+    data_checker->remove_stale_archives();
     return data_checker->remove();
 }
 
@@ -672,6 +712,7 @@ Fixer::ConvertResult Fixer::tar()
     mds.sort_segment();
 
     // Create the .tar segment
+    set_rescan_marker(segment());
     auto new_data = data_checker->tar(mds);
     res.size_post = new_data->size();
 
@@ -680,8 +721,8 @@ Fixer::ConvertResult Fixer::tar()
 
     // Commit the changes in the database
     pending_index.commit();
+    clear_rescan_marker(segment());
 
-    data_checker->remove_stale_archives();
     checker().update_data();
     res.segment_mtime = get_data_mtime_after_fix(new_data, "conversion to tar");
     return res;
@@ -714,6 +755,7 @@ Fixer::ConvertResult Fixer::zip()
     mds.sort_segment();
 
     // Create the .zip segment
+    set_rescan_marker(segment());
     auto new_data = data_checker->zip(mds);
     res.size_post = new_data->size();
 
@@ -722,6 +764,7 @@ Fixer::ConvertResult Fixer::zip()
 
     // Commit the changes in the database
     pending_index.commit();
+    clear_rescan_marker(segment());
 
     checker().update_data();
     res.segment_mtime = get_data_mtime_after_fix(new_data, "conversion to zip");
@@ -756,6 +799,7 @@ Fixer::ConvertResult Fixer::compress(unsigned groupsize)
     mds.sort_segment();
 
     // Create the .zip segment
+    set_rescan_marker(segment());
     auto new_data = data_checker->compress(mds, groupsize);
     res.size_post = new_data->size();
 
@@ -764,6 +808,7 @@ Fixer::ConvertResult Fixer::compress(unsigned groupsize)
 
     // Commit the changes in the database
     pending_index.commit();
+    clear_rescan_marker(segment());
 
     checker().update_data();
     res.segment_mtime = get_data_mtime_after_fix(new_data, "conversion to gz");
@@ -776,6 +821,7 @@ void Fixer::reindex(arki::metadata::Collection& mds)
     auto pending_index = index.begin_transaction();
     index.reindex(mds);
     pending_index.commit();
+    clear_rescan_marker(segment());
     index.vacuum();
 }
 
-- 
2.43.0


From d8af861d954dc06d027c80986d843e9a2d286c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:23 +0000
Subject: [PATCH 31/70] fix: simple datasets: converting a segment that is not
 in the manifest must not fail

---
 arki/dataset/simple/checker.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/arki/dataset/simple/checker.cc b/arki/dataset/simple/checker.cc
index f606465..1e4a08a 100644
--- a/arki/dataset/simple/checker.cc
+++ b/arki/dataset/simple/checker.cc
@@ -150,7 +150,11 @@ public:
     void post_repack(std::shared_ptr<segment::Fixer>,
                      segment::Fixer::ReorderResult& res) override
     {
-        // Reindex with the new file information
+        // Reindex with the new file information.
+        // Segments found on disk that are not in the manifest are left for
+        // check to add
+        if (!dataset_checker.manifest.segment(segment->relpath()))
+            return;
         dataset_checker.manifest.set_mtime(segment->relpath(),
                                            res.segment_mtime);
         dataset_checker.manifest.flush();
@@ -166,7 +170,11 @@ public:
     void post_convert(std::shared_ptr<segment::Fixer>,
                       segment::Fixer::ConvertResult& res) override
     {
-        // Reindex with the new file information
+        // Reindex with the new file information.
+        // Segments found on disk that are not in the manifest are left for
+        // check to add
+        if (!dataset_checker.manifest.segment(segment->relpath()))
+            return;
         dataset_checker.manifest.set_mtime(segment->relpath(),
                                            res.segment_mtime);
         dataset_checker.manifest.flush();
-- 
2.43.0


From 40350ddbfcd4f1d43e6d9e619887b5778dca11af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:58 +0000
Subject: [PATCH 32/70] fix: dir segments: a failure removing the emptied
 directory must not bring it back as an empty segment

---
 arki/segment/data/dir.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arki/segment/data/dir.cc b/arki/segment/data/dir.cc
index 1129063..b87b7c7 100644
--- a/arki/segment/data/dir.cc
+++ b/arki/segment/data/dir.cc
@@ -718,7 +718,8 @@ template <typename Data> size_t BaseChecker<Data>::remove()
     std::filesystem::remove(hidden / ".repack-lock");
     // Also remove the directory if it is empty, else preserve what we do not
     // know about
-    if (::rmdir(hidden.c_str()) == -1)
+    if (::rmdir(hidden.c_str()) == -1 &&
+        (errno == ENOTEMPTY || errno == EEXIST))
         ::rename(hidden.c_str(), abspath.c_str());
     return size;
 }
-- 
2.43.0


From 9357093117cb6ba51c32b33031e6e327eaa7a40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:58 +0000
Subject: [PATCH 33/70] fix: iseg segments: with timestamps in the future,
 check brought back removed data

---
 arki/segment/iseg.cc       | 10 +++++++++-
 arki/segment/iseg/index.cc | 17 +++++++++++++++++
 arki/segment/iseg/index.h  | 12 ++++++++++++
 3 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/arki/segment/iseg.cc b/arki/segment/iseg.cc
index 5e472fe..4197f44 100644
--- a/arki/segment/iseg.cc
+++ b/arki/segment/iseg.cc
@@ -527,7 +527,8 @@ Checker::FsckResult Checker::fsck(segment::Reporter& reporter, bool quick)
      * However, this is still better than nothing: it may not catch all cases,
      * but it may catch some.
      */
-    if (ts_index < ts_data.value())
+    if (ts_index < ts_data.value() &&
+        index().get_data_mtime() != ts_data.value())
     {
         reporter.info(segment(), "data is newer than index");
         res.state = segment::SEGMENT_UNALIGNED;
@@ -618,6 +619,11 @@ Fixer::MarkRemovedResult Fixer::mark_removed(const std::set<uint64_t>& offsets)
     for (const auto& offset : offsets)
         index.remove(offset);
 
+    // If the data has a timestamp in the future, the index would otherwise be
+    // considered outdated, and the data removed found again by rescanning
+    if (auto ts = checker().data->timestamp())
+        index.set_data_mtime(ts.value());
+
     pending_del.commit();
 
     res.segment_mtime =
@@ -820,6 +826,8 @@ void Fixer::reindex(arki::metadata::Collection& mds)
     auto& index        = checker().index();
     auto pending_index = index.begin_transaction();
     index.reindex(mds);
+    if (auto ts = checker().data->timestamp())
+        index.set_data_mtime(ts.value());
     pending_index.commit();
     clear_rescan_marker(segment());
     index.vacuum();
diff --git a/arki/segment/iseg/index.cc b/arki/segment/iseg/index.cc
index f87c9bc..c175bc3 100644
--- a/arki/segment/iseg/index.cc
+++ b/arki/segment/iseg/index.cc
@@ -218,6 +218,16 @@ core::Interval Index<LockType>::query_data_timespan() const
     return interval;
 }
 
+template <typename LockType> time_t Index<LockType>::get_data_mtime() const
+{
+    time_t res = 0;
+    Query q("data_mtime", m_db);
+    q.compile("PRAGMA user_version");
+    while (q.step())
+        res = (uint32_t)q.fetch<int>(0);
+    return res;
+}
+
 template <typename LockType>
 void Index<LockType>::add_joins_and_constraints(const Matcher& m,
                                                 std::string& query) const
@@ -727,6 +737,13 @@ template <typename LockType> void WIndex<LockType>::remove(off_t ofs)
         ;
 }
 
+template <typename LockType>
+void WIndex<LockType>::set_data_mtime(time_t mtime)
+{
+    m_db.exec("PRAGMA user_version = " +
+              std::to_string((int32_t)(uint32_t)mtime));
+}
+
 template <typename LockType> void WIndex<LockType>::flush()
 {
     // Not needed for index data consistency, but we need it to ensure file
diff --git a/arki/segment/iseg/index.h b/arki/segment/iseg/index.h
index 9fe996b..af6dd62 100644
--- a/arki/segment/iseg/index.h
+++ b/arki/segment/iseg/index.h
@@ -130,6 +130,12 @@ public:
      */
     core::Interval query_data_timespan() const;
 
+    /**
+     * Return the modification time of the segment data recorded by
+     * WIndex::set_data_mtime, or 0 if it was never recorded.
+     */
+    time_t get_data_mtime() const;
+
     /**
      * Send the metadata of all data items known by the index
      */
@@ -221,6 +227,12 @@ public:
     /// Flush the journal contents to the main database
     void flush();
 
+    /**
+     * Record that the index is up to date with the data that has the given
+     * modification time
+     */
+    void set_data_mtime(time_t mtime);
+
     /**
      * Remove all entries from the index
      */
-- 
2.43.0


From a20eb5f4c36d9d2b91a030fb1f5ee57ea90404ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:14 +0000
Subject: [PATCH 34/70] fix: iseg datasets: a query must not cache a summary
 computed before an import that ended in the meantime

---
 arki/dataset/index/summarycache.cc | 77 +++++++++++++++++++++++++-----
 arki/dataset/index/summarycache.h  | 45 ++++++++++++++---
 arki/dataset/iseg/reader.cc        | 10 +++-
 3 files changed, 112 insertions(+), 20 deletions(-)

diff --git a/arki/dataset/index/summarycache.cc b/arki/dataset/index/summarycache.cc
index 4a696f1..926cb50 100644
--- a/arki/dataset/index/summarycache.cc
+++ b/arki/dataset/index/summarycache.cc
@@ -8,6 +8,9 @@
 #include "arki/utils/string.h"
 #include "arki/utils/sys.h"
 #include <fcntl.h>
+#include <sys/stat.h>
+#include <system_error>
+#include <unistd.h>
 
 using namespace std;
 using namespace arki::types;
@@ -64,41 +67,90 @@ bool SummaryCache::read(Summary& s, int year, int month)
     return true;
 }
 
-bool SummaryCache::write(Summary& s)
+SummaryCache::Update::Update(const std::filesystem::path& pathname)
+    : pathname(pathname), out(sys::File::mkstemp(pathname))
 {
-    auto sum_file = m_scache_root / "all.summary";
+}
 
-    // Write back to the cache directory, if allowed
-    if (!sys::access(m_scache_root, W_OK))
-        return false;
+SummaryCache::Update::~Update()
+{
+    if (!committed)
+        ::unlink(out.path().c_str());
+}
 
-    s.writeAtomically(sum_file);
+bool SummaryCache::Update::commit(const Summary& s)
+{
+    auto encoded = s.encode(true);
+
+    // Set the file permissions, honoring umask
+    mode_t mask = umask(0777);
+    umask(mask);
+    out.fchmod(0666 & ~mask);
+    out.write_all_or_retry(encoded);
+
+    // Make sure the contents hit the disk before the rename does, or after a
+    // crash the new file may be found empty
+    out.fdatasync();
+    out.close();
+
+    if (::rename(out.path().c_str(), pathname.c_str()) == -1)
+    {
+        // Invalidating the cache removes the files of the updates in progress
+        if (errno == ENOENT)
+            return false;
+        throw std::system_error(errno, std::system_category(),
+                                "cannot rename " + out.path().native() +
+                                    " to " + pathname.native());
+    }
+    committed = true;
     return true;
 }
 
-bool SummaryCache::write(Summary& s, int year, int month)
+std::unique_ptr<SummaryCache::Update> SummaryCache::update()
 {
-    auto sum_file = summary_pathname(year, month);
+    // Write back to the cache directory, if allowed
+    if (!sys::access(m_scache_root, W_OK))
+        return std::unique_ptr<Update>();
+    return std::make_unique<Update>(m_scache_root / "all.summary");
+}
 
+std::unique_ptr<SummaryCache::Update> SummaryCache::update(int year, int month)
+{
     // Write back to the cache directory, if allowed
     if (!sys::access(m_scache_root, W_OK))
-        return false;
+        return std::unique_ptr<Update>();
+    return std::make_unique<Update>(summary_pathname(year, month));
+}
 
-    s.writeAtomically(sum_file);
-    return true;
+void SummaryCache::invalidate_updates()
+{
+    if (!sys::access(m_scache_root, F_OK))
+        return;
+    // Temporary files are named as the file they will become, plus a suffix
+    sys::Path dir(m_scache_root);
+    for (sys::Path::iterator i = dir.begin(); i != dir.end(); ++i)
+    {
+        std::string name(i->d_name);
+        if (name.find(".summary") != std::string::npos &&
+            !str::endswith(name, ".summary"))
+            std::filesystem::remove(m_scache_root / name);
+    }
 }
 
 void SummaryCache::invalidate()
 {
+    invalidate_updates();
     // Delete all files *.summary in the cache directory
     sys::Path dir(m_scache_root);
     for (sys::Path::iterator i = dir.begin(); i != dir.end(); ++i)
         if (str::endswith(i->d_name, ".summary"))
-            sys::unlink(m_scache_root / i->d_name);
+            // Others may be invalidating the cache, too
+            std::filesystem::remove(m_scache_root / i->d_name);
 }
 
 void SummaryCache::invalidate(int year, int month)
 {
+    invalidate_updates();
     std::filesystem::remove(summary_pathname(year, month));
     std::filesystem::remove(m_scache_root / "all.summary");
 }
@@ -132,6 +184,7 @@ void SummaryCache::invalidate(const metadata::InboundBatch& batch)
 
 void SummaryCache::invalidate(const Time& tmin, const Time& tmax)
 {
+    invalidate_updates();
     for (Time t = tmin; t <= tmax; t = t.start_of_next_month())
         std::filesystem::remove(summary_pathname(t.ye, t.mo));
     // Note that the global summary may exist without the monthly ones
diff --git a/arki/dataset/index/summarycache.h b/arki/dataset/index/summarycache.h
index ca82ff3..30ece5e 100644
--- a/arki/dataset/index/summarycache.h
+++ b/arki/dataset/index/summarycache.h
@@ -6,7 +6,9 @@
 #include <arki/core/time.h>
 #include <arki/dataset/fwd.h>
 #include <arki/metadata/fwd.h>
+#include <arki/utils/sys.h>
 #include <filesystem>
+#include <memory>
 
 namespace arki {
 class Summary;
@@ -25,7 +27,38 @@ protected:
     /// Return the pathname for the summary file for a given year and month
     std::filesystem::path summary_pathname(int year, int month) const;
 
+    /// Make sure that updates in progress do not get to the cache
+    void invalidate_updates();
+
 public:
+    /**
+     * Update of a cache file.
+     *
+     * It needs to be created before starting to compute the summary to write:
+     * if the cache is invalidated in the meantime, then the summary may be
+     * computed from outdated information, and it is not written.
+     */
+    class Update
+    {
+        std::filesystem::path pathname;
+        utils::sys::File out;
+        bool committed = false;
+
+    public:
+        explicit Update(const std::filesystem::path& pathname);
+        Update(const Update&)            = delete;
+        Update& operator=(const Update&) = delete;
+        ~Update();
+
+        /**
+         * Write the summary to the cache.
+         *
+         * Return false if nothing has been written because the cache was
+         * invalidated since the update started.
+         */
+        bool commit(const Summary& s);
+    };
+
     explicit SummaryCache(const std::filesystem::path& root);
     ~SummaryCache();
 
@@ -40,13 +73,13 @@ public:
     /// cache
     bool read(Summary& s, int year, int month);
 
-    /// Write the global cache file; returns false if the cache dir is not
-    /// writable.
-    bool write(Summary& s);
+    /// Start updating the global cache file; returns an empty pointer if the
+    /// cache dir is not writable.
+    std::unique_ptr<Update> update();
 
-    /// Write the cache file for the given month; returns false if the cache dir
-    /// is not writable.
-    bool write(Summary& s, int year, int month);
+    /// Start updating the cache file for the given month; returns an empty
+    /// pointer if the cache dir is not writable.
+    std::unique_ptr<Update> update(int year, int month);
 
     /// Remove all contents of the cache
     void invalidate();
diff --git a/arki/dataset/iseg/reader.cc b/arki/dataset/iseg/reader.cc
index ff1d16d..0476afe 100644
--- a/arki/dataset/iseg/reader.cc
+++ b/arki/dataset/iseg/reader.cc
@@ -79,12 +79,15 @@ void Reader::summary_for_month(int year, int month, Summary& out)
     if (scache.read(out, year, month))
         return;
 
+    auto update = scache.update(year, month);
+
     Matcher matcher = Matcher::for_month(year, month);
 
     Summary summary;
     summary_from_indices(matcher, summary);
 
-    scache.write(summary, year, month);
+    if (update)
+        update->commit(summary);
     out.add(summary);
 }
 
@@ -93,6 +96,8 @@ void Reader::summary_for_all(Summary& out)
     if (scache.read(out))
         return;
 
+    auto update = scache.update();
+
     // Find the datetime extremes in the database
     core::Interval interval;
     dataset().step().time_extremes(
@@ -118,7 +123,8 @@ void Reader::summary_for_all(Summary& out)
         }
     }
 
-    scache.write(out);
+    if (update)
+        update->commit(out);
 }
 
 void Reader::impl_query_summary(const Matcher& matcher, Summary& summary)
-- 
2.43.0


From 54bee580b454630957ef258bd14474148e566e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:14 +0000
Subject: [PATCH 35/70] fix: simple datasets: queries must not skip the
 segments that are being imported to

---
 arki/core/lock.cc        | 13 +++++++++++++
 arki/core/lock.h         | 12 +++++++++++-
 arki/segment/metadata.cc | 38 +++++++++++++++++++++++++++++++++++++-
 3 files changed, 61 insertions(+), 2 deletions(-)

diff --git a/arki/core/lock.cc b/arki/core/lock.cc
index b43b334..8c39f6f 100644
--- a/arki/core/lock.cc
+++ b/arki/core/lock.cc
@@ -27,6 +27,8 @@ static unsigned count_ofd_getlk  = 0;
 
 Lock::~Lock() {}
 
+bool ReadLock::append_in_progress() const { return false; }
+
 FLock::FLock() { memset(this, 0, sizeof(struct ::flock)); }
 
 bool FLock::ofd_setlk(NamedFileDescriptor& fd)
@@ -115,6 +117,17 @@ FileReadLock::~FileReadLock()
     lock_policy->setlk(lockfile, ds_lock);
 }
 
+bool FileReadLock::append_in_progress() const
+{
+    FLock append_lock;
+    append_lock.l_type   = F_WRLCK;
+    append_lock.l_whence = SEEK_SET;
+    append_lock.l_start  = 1;
+    append_lock.l_len    = 1;
+    append_lock.l_pid    = 0;
+    return !lock_policy->getlk(lockfile, append_lock);
+}
+
 FileAppendLock::FileAppendLock(const std::filesystem::path& pathname,
                                const core::lock::Policy* lock_policy)
     : File(pathname, lock_policy)
diff --git a/arki/core/lock.h b/arki/core/lock.h
index 08c7093..f415757 100644
--- a/arki/core/lock.h
+++ b/arki/core/lock.h
@@ -32,6 +32,14 @@ class ReadLock : public Lock
 {
 public:
     using Lock::Lock;
+
+    /**
+     * Check if someone else is currently holding an append or a check lock.
+     *
+     * Since appending does not interfere with reading, this can happen at any
+     * time while a read lock is held.
+     */
+    virtual bool append_in_progress() const;
 };
 
 /**
@@ -143,7 +151,7 @@ template <typename Base> class File : public Base
                   "Base not derived from arki::core::Lock");
 
 public:
-    arki::core::File lockfile;
+    mutable arki::core::File lockfile;
     const core::lock::Policy* lock_policy;
     arki::core::FLock ds_lock;
 
@@ -157,6 +165,8 @@ public:
     FileReadLock(const std::filesystem::path& pathname,
                  const core::lock::Policy* lock_policy);
     ~FileReadLock() override;
+
+    bool append_in_progress() const override;
 };
 
 class FileAppendLock : public File<core::AppendLock>
diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index 828315b..2685283 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -16,11 +16,47 @@ using namespace arki::utils;
 
 namespace arki::segment::metadata {
 
+namespace {
+
+/**
+ * Check if metadata can be used to read a segment that others can be appending
+ * to.
+ *
+ * Data is written before its metadata: while an append is in progress, the data
+ * is newer than the metadata, and the metadata still describes all that was
+ * committed before the append started.
+ */
+bool has_readable_metadata(std::shared_ptr<const Segment> segment,
+                           const core::ReadLock& lock)
+{
+    auto data = Data::create(segment);
+    std::optional<time_t> previous;
+    while (true)
+    {
+        auto ts = data->timestamp();
+        if (!ts)
+            return false;
+        bool appending = lock.append_in_progress();
+        auto st_md     = sys::stat(segment->abspath_metadata());
+        if (!st_md.get())
+            return false;
+        if (appending || st_md->st_mtime >= ts.value())
+            return true;
+        // Look again, in case what we saw was an append that was then rolled
+        // back
+        if (ts == previous)
+            return false;
+        previous = ts;
+    }
+}
+
+} // namespace
+
 std::shared_ptr<segment::Reader>
 Session::create_segment_reader(std::shared_ptr<const Segment> segment,
                                std::shared_ptr<const core::ReadLock> lock) const
 {
-    if (has_valid_metadata(segment))
+    if (has_readable_metadata(segment, *lock))
         return std::make_shared<segment::metadata::Reader>(segment, lock);
 #if 0
     // Do not fall back to a rescan: if metadata is missing, we skip the
-- 
2.43.0


From dc58a8391edf22e6d7dce65f1a208e220d6c9958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:14 +0000
Subject: [PATCH 36/70] fix: simple datasets: a query must not cache a summary
 computed while others change the dataset

---
 arki/core/lock.cc             |  8 ++++++--
 arki/core/lock.h              |  3 ++-
 arki/dataset/lock.cc          |  5 +++--
 arki/dataset/lock.h           |  2 +-
 arki/dataset/simple.cc        | 12 ++++++++++++
 arki/dataset/simple.h         |  2 ++
 arki/dataset/simple/reader.cc | 17 ++++++++++++-----
 7 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/arki/core/lock.cc b/arki/core/lock.cc
index 8c39f6f..66e2409 100644
--- a/arki/core/lock.cc
+++ b/arki/core/lock.cc
@@ -129,7 +129,8 @@ bool FileReadLock::append_in_progress() const
 }
 
 FileAppendLock::FileAppendLock(const std::filesystem::path& pathname,
-                               const core::lock::Policy* lock_policy)
+                               const core::lock::Policy* lock_policy,
+                               bool wait)
     : File(pathname, lock_policy)
 {
     trace("%s [%d] Requesting append lock\n", pathname.c_str(), (int)getpid());
@@ -139,7 +140,10 @@ FileAppendLock::FileAppendLock(const std::filesystem::path& pathname,
     ds_lock.l_len    = 1;
     ds_lock.l_pid    = 0;
     // Use SETLKW, so that if it is already locked, we just wait
-    lock_policy->setlkw(lockfile, ds_lock);
+    if (wait)
+        lock_policy->setlkw(lockfile, ds_lock);
+    else if (!lock_policy->setlk(lockfile, ds_lock))
+        throw locked_error(pathname.native() + " is already locked");
     trace("%s [%d] Obtained append lock\n", pathname.c_str(), (int)getpid());
 }
 
diff --git a/arki/core/lock.h b/arki/core/lock.h
index f415757..43eb175 100644
--- a/arki/core/lock.h
+++ b/arki/core/lock.h
@@ -172,8 +172,9 @@ public:
 class FileAppendLock : public File<core::AppendLock>
 {
 public:
+    /// If the lock is busy and wait is false, throw locked_error
     FileAppendLock(const std::filesystem::path& pathname,
-                   const core::lock::Policy* lock_policy);
+                   const core::lock::Policy* lock_policy, bool wait = true);
     ~FileAppendLock() override;
 };
 
diff --git a/arki/dataset/lock.cc b/arki/dataset/lock.cc
index 3723615..167396d 100644
--- a/arki/dataset/lock.cc
+++ b/arki/dataset/lock.cc
@@ -39,8 +39,9 @@ SegmentReadLock::SegmentReadLock(const local::Dataset& dataset,
 {
 }
 
-DatasetAppendLock::DatasetAppendLock(const local::Dataset& dataset)
-    : core::lock::FileAppendLock(dataset.path / "lock", dataset.lock_policy)
+DatasetAppendLock::DatasetAppendLock(const local::Dataset& dataset, bool wait)
+    : core::lock::FileAppendLock(dataset.path / "lock", dataset.lock_policy,
+                                 wait)
 {
 }
 
diff --git a/arki/dataset/lock.h b/arki/dataset/lock.h
index 8926e61..1672b7d 100644
--- a/arki/dataset/lock.h
+++ b/arki/dataset/lock.h
@@ -19,7 +19,7 @@ public:
 class DatasetAppendLock : public core::lock::FileAppendLock
 {
 public:
-    explicit DatasetAppendLock(const local::Dataset& dataset);
+    explicit DatasetAppendLock(const local::Dataset& dataset, bool wait = true);
 };
 
 class DatasetCheckLock : public core::lock::FileCheckLock
diff --git a/arki/dataset/simple.cc b/arki/dataset/simple.cc
index bf4ee2b..fbf89c1 100644
--- a/arki/dataset/simple.cc
+++ b/arki/dataset/simple.cc
@@ -55,6 +55,18 @@ std::shared_ptr<core::AppendLock> Dataset::append_lock_dataset() const
     return std::make_shared<DatasetAppendLock>(*this);
 }
 
+std::shared_ptr<core::AppendLock> Dataset::try_append_lock_dataset() const
+{
+    try
+    {
+        return std::make_shared<DatasetAppendLock>(*this, false);
+    }
+    catch (core::lock::locked_error&)
+    {
+        return std::shared_ptr<core::AppendLock>();
+    }
+}
+
 std::shared_ptr<core::CheckLock> Dataset::check_lock_dataset() const
 {
     return std::make_shared<DatasetCheckLock>(*this);
diff --git a/arki/dataset/simple.h b/arki/dataset/simple.h
index 26ed1b8..6bdc0ab 100644
--- a/arki/dataset/simple.h
+++ b/arki/dataset/simple.h
@@ -16,6 +16,8 @@ struct Dataset : public dataset::segmented::Dataset
 
     std::shared_ptr<core::ReadLock> read_lock_dataset() const;
     std::shared_ptr<core::AppendLock> append_lock_dataset() const;
+    /// Return an empty pointer if the lock is busy
+    std::shared_ptr<core::AppendLock> try_append_lock_dataset() const;
     std::shared_ptr<core::CheckLock> check_lock_dataset() const;
 };
 
diff --git a/arki/dataset/simple/reader.cc b/arki/dataset/simple/reader.cc
index 17d1a80..e524f14 100644
--- a/arki/dataset/simple/reader.cc
+++ b/arki/dataset/simple/reader.cc
@@ -110,17 +110,24 @@ void Reader::impl_query_summary(const Matcher& matcher, Summary& summary)
     // global summary
     auto cache_pathname = dataset().path / "summary";
 
-    if (sys::access(cache_pathname, R_OK))
+    sys::File cache(cache_pathname);
+    if (cache.open_ifexists(O_RDONLY))
     {
         Summary s;
-        s.read_file(cache_pathname);
+        s.read(cache);
         s.filter(matcher, summary);
+        return;
     }
-    else if (sys::access(dataset().path, W_OK))
+
+    // Rebuild the cache, if nobody is changing the dataset in the meantime:
+    // otherwise we may save an outdated summary, after it has been invalidated
+    std::shared_ptr<core::ReadLock> append_lock;
+    if (sys::access(dataset().path, W_OK))
+        append_lock = dataset().try_append_lock_dataset();
+    if (append_lock)
     {
-        // Rebuild the cache
         Summary s;
-        query_segments_for_summary(Matcher(), s, lock);
+        query_segments_for_summary(Matcher(), s, append_lock);
 
         // Save the summary
         s.writeAtomically(cache_pathname);
-- 
2.43.0


From e3ed6b8239d3a41f84dcd19cb55ea4697fa06023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:00 +0000
Subject: [PATCH 37/70] fix: simple datasets: an interrupted import must not
 leave the old segment summary with the new metadata

---
 arki/segment/metadata.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index 2685283..f45b680 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -171,6 +171,9 @@ struct AtomicWriterWithSummary
             if (out_sum)
                 out_sum.fdatasync();
         }
+        // If we are interrupted, do not leave the old summary together with
+        // the new metadata
+        std::filesystem::remove(segment.abspath_summary());
         if (out_md)
         {
             out_md.close();
@@ -349,11 +352,11 @@ bool Reader::query_data(const query::Data& q, metadata_dest_func dest)
 
 void Reader::query_summary(const Matcher& matcher, Summary& summary)
 {
-    auto summary_path = m_segment->abspath_summary();
-    if (sys::access(summary_path, R_OK))
+    sys::File summary_file(m_segment->abspath_summary());
+    if (summary_file.open_ifexists(O_RDONLY))
     {
         Summary s;
-        s.read_file(summary_path);
+        s.read(summary_file);
         s.filter(matcher, summary);
     }
     else
@@ -410,6 +413,9 @@ void Writer::write_metadata()
     auto path_sum = segment().abspath_summary();
 
     mds.prepare_for_segment_metadata();
+    // If we are interrupted, do not leave the old summary together with the new
+    // metadata
+    std::filesystem::remove(path_sum);
     mds.writeAtomically(path_md);
     sum.writeAtomically(path_sum);
 }
-- 
2.43.0


From 9847e81fca4ff385c1e4de3f9cb7d07c95c8a0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:11 +0000
Subject: [PATCH 38/70] fix: simple datasets: importing after an interrupted
 import or repack must not lose track of the data already there

---
 arki/dataset/simple/writer.cc | 19 +++++++++++++++++++
 arki/dataset/simple/writer.h  |  6 ++++++
 arki/segment/metadata.cc      | 11 +++++++++--
 3 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/arki/dataset/simple/writer.cc b/arki/dataset/simple/writer.cc
index 31cd1a7..988b918 100644
--- a/arki/dataset/simple/writer.cc
+++ b/arki/dataset/simple/writer.cc
@@ -5,6 +5,7 @@
 #include "arki/dataset/step.h"
 #include "arki/metadata.h"
 #include "arki/metadata/collection.h"
+#include "arki/segment/data.h"
 #include "arki/summary.h"
 #include "arki/types/reftime.h"
 #include "arki/types/source/blob.h"
@@ -42,6 +43,16 @@ void Writer::invalidate_summary()
     std::filesystem::remove(dataset().path / "summary");
 }
 
+bool Writer::needs_check(const Segment& segment)
+{
+    // Maintenance rewrites data and metadata, and may have been interrupted
+    // when the metadata is missing. Importing in that state would make new
+    // metadata without the data that is already there
+    return manifest.segment(segment.relpath()) &&
+           !std::filesystem::exists(segment.abspath_metadata()) &&
+           !segment::Data::create(segment.shared_from_this())->is_empty();
+}
+
 void Writer::acquire_batch(metadata::InboundBatch& batch,
                            const AcquireConfig& cfg)
 {
@@ -63,6 +74,14 @@ void Writer::acquire_batch(metadata::InboundBatch& batch,
         {
             auto segment =
                 dataset().segment_session->segment_from_relpath(s.first);
+            if (needs_check(*segment))
+            {
+                s.second.set_all_error(
+                    "cannot acquire into dataset " + name() + ": segment " +
+                    s.first +
+                    " has lost its metadata, and needs to be checked");
+                continue;
+            }
             auto writer = segment->writer(lock);
             auto res    = writer->acquire(s.second, writer_config);
             if (res.count_ok > 0)
diff --git a/arki/dataset/simple/writer.h b/arki/dataset/simple/writer.h
index cd4955f..4f8e08d 100644
--- a/arki/dataset/simple/writer.h
+++ b/arki/dataset/simple/writer.h
@@ -18,6 +18,12 @@ protected:
 
     void invalidate_summary();
 
+    /**
+     * Check if the segment is in a state that prevents importing until it gets
+     * repaired by a check
+     */
+    bool needs_check(const Segment& segment);
+
 public:
     Writer(std::shared_ptr<simple::Dataset> dataset);
     virtual ~Writer();
diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index f45b680..592b80b 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -374,8 +374,15 @@ Writer::Writer(std::shared_ptr<const Segment> segment,
                std::shared_ptr<core::AppendLock> lock)
     : segment::Writer(segment, lock), data(segment::Data::create(segment))
 {
-    // Read the metadata
-    auto reader = segment->reader(lock);
+    // Read the metadata. If an append was interrupted, the data is newer than
+    // the metadata, which still describes what was committed before: do not
+    // lose track of it
+    std::shared_ptr<segment::Reader> reader;
+    if (data->timestamp() &&
+        std::filesystem::exists(segment->abspath_metadata()))
+        reader = std::make_shared<segment::metadata::Reader>(segment, lock);
+    else
+        reader = segment->reader(lock);
     reader->read_all(mds.inserter_func());
 
     // Read the summary
-- 
2.43.0


From 4521b515c992ead9c61e5c6fb797efe66cd5a67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:05 +0000
Subject: [PATCH 39/70] fix: iseg datasets: imports could fail with 'database
 is locked' while a query was opening the index

---
 arki/segment/iseg/index.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/arki/segment/iseg/index.cc b/arki/segment/iseg/index.cc
index c175bc3..0e48c36 100644
--- a/arki/segment/iseg/index.cc
+++ b/arki/segment/iseg/index.cc
@@ -69,7 +69,11 @@ template <typename LockType> Index<LockType>::~Index()
 
 template <typename LockType> core::Pending Index<LockType>::begin_transaction()
 {
-    return core::Pending(new SqliteTransaction(m_db));
+    // Transactions are only used to write. Acquire the write lock right away: if
+    // the transaction starts as a read, sqlite does not wait for the lock later,
+    // and fails if another process is momentarily holding it, as it happens
+    // when a query is the first to open the database
+    return core::Pending(new SqliteTransaction(m_db, "IMMEDIATE"));
 }
 
 template <typename LockType>
-- 
2.43.0


From 988bce41c9516844428f80b1c9b8dc17e331c872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 40/70] fix: filter output could be lost when a postprocessing
 filter ended before its output was moved

POLLHUP on the filter stdout does not mean that there is nothing left to read:
if the destination was not ready, or if there was more than one buffer of data,
the rest of the output of the filter was silently discarded. With splice not
available, the event loop kept polling file descriptors after closing them.
---
 arki/stream/concrete-parts.tcc | 59 ++++++++++++++--------------------
 1 file changed, 25 insertions(+), 34 deletions(-)

diff --git a/arki/stream/concrete-parts.tcc b/arki/stream/concrete-parts.tcc
index e48d9b3..37af987 100644
--- a/arki/stream/concrete-parts.tcc
+++ b/arki/stream/concrete-parts.tcc
@@ -214,12 +214,21 @@ struct FromFilter
         pfd_filter_stdout->events = POLLIN;
     }
 
+    void close_stdout()
+    {
+        stream.filter_process->cmd.close_stdout();
+        pfd_filter_stdout->fd = -1;
+    }
+
     bool setup_poll()
     {
+        // While there is data that waits to be moved, stop monitoring the
+        // filter stdout: POLLHUP would be reported even with no events
+        // requested, and it does not mean that the pipe is empty
         if (filter_stdout_available)
-            pfd_filter_stdout->events = 0;
+            pfd_filter_stdout->fd = -1;
         else
-            pfd_filter_stdout->events = POLLIN;
+            pfd_filter_stdout->fd = stream.filter_process->cmd.get_stdout();
 
         trace_streaming("  FromFilter.setup_poll: filter_stdout: %d:%x\n", stream.filter_process->cmd.get_stdout(), (int)pfd_filter_stdout->events);
         return stream.filter_process->cmd.get_stdout() != -1;
@@ -229,6 +238,13 @@ struct FromFilter
     {
         if (pfd_filter_stdout->revents & POLLIN)
             filter_stdout_available = true;
+        else if (pfd_filter_stdout->revents & (POLLERR | POLLHUP))
+        {
+            // Filter stdout closed its endpoint, and there is nothing left to
+            // read
+            trace_streaming("  FromFilter.on_poll: POLLERR|POLLHUP on filter stdout: closing it\n");
+            close_stdout();
+        }
 
         return false;
     }
@@ -339,8 +355,9 @@ struct FromFilterSplice : public FromFilterConcrete<Backend>
                 case TransferResult::DONE:
                     throw std::runtime_error("unexpected result from feed_filter_stdin");
                 case TransferResult::EOF_SOURCE:
-                    // Filter closed stdout, evidently we are done
-                    done = true;
+                    // Filter closed stdout: there can still be something in
+                    // its stderr
+                    this->close_stdout();
                     break;
                 case TransferResult::EOF_DEST:
                     // Destination closed its pipe
@@ -350,11 +367,6 @@ struct FromFilterSplice : public FromFilterConcrete<Backend>
                 case TransferResult::WOULDBLOCK:
                     break;
             }
-        } else if (this->pfd_filter_stdout->revents & (POLLERR | POLLHUP)) {
-            trace_streaming("  FromFilterSplice.on_poll: filter stdout closed\n");
-            // Filter stdout closed its endpoint
-            this->stream.filter_process->cmd.close_stdout();
-            this->pfd_filter_stdout->fd = -1;
         }
 
         return done;
@@ -402,13 +414,13 @@ struct FromFilterReadWrite : public FromFilterConcrete<Backend>
         auto pre = to_output.pos;
         auto res = to_output.transfer_available(destination);
         if (this->stream.progress_callback)
-            this->stream.progress_callback(pre - to_output.pos);
+            this->stream.progress_callback(to_output.pos - pre);
         return res;
     }
 
     bool setup_poll()
     {
-        bool res = FromFilter<Backend>::setup_poll();
+        bool res = FromFilterConcrete<Backend>::setup_poll();
         trace_streaming("  FromFilterReadWrite.setup_poll: parent: %d, %zd/%zd\n", res, to_output.pos, to_output.size);
         res = res or (to_output.size > 0 && to_output.pos < to_output.size);
         return res;
@@ -421,8 +433,6 @@ struct FromFilterReadWrite : public FromFilterConcrete<Backend>
         trace_streaming("  FromFilterReadWrite.on_poll stdout_available:%d destination_available:%d to_output:%zd/%zd\n",
                 this->filter_stdout_available, this->destination_available, to_output.pos, to_output.size);
 
-        bool moved_data = false;
-
         if ((to_output.size == 0 || to_output.pos >= to_output.size) && this->filter_stdout_available)
         {
             this->filter_stdout_available = false;
@@ -432,14 +442,13 @@ struct FromFilterReadWrite : public FromFilterConcrete<Backend>
                     throw std::runtime_error("unexpected result from feed_filter_stdin");
                 case TransferResult::EOF_SOURCE:
                     trace_streaming("  FromFilterReadWrite.on_poll: EOF on filter_stdout: closing it\n");
-                    this->stream.filter_process->cmd.close_stdout();
+                    this->close_stdout();
                     break;
                 case TransferResult::EOF_DEST:
                     throw std::runtime_error("unexpected result from feed_filter_stdin");
                 case TransferResult::WOULDBLOCK:
                     break;
             }
-            moved_data = true;
         }
 
         if (to_output.size > 0 && to_output.pos < to_output.size && this->destination_available)
@@ -448,9 +457,6 @@ struct FromFilterReadWrite : public FromFilterConcrete<Backend>
             switch (transfer_available_output_write())
             {
                 case TransferResult::DONE:
-                    if (this->stream.filter_process->cmd.get_stdout() == -1)
-                        // We are done if filter_stdout is closed
-                        done = true;
                     break;
                 case TransferResult::EOF_SOURCE:
                     throw std::runtime_error("unexpected result from feed_filter_stdin");
@@ -462,14 +468,6 @@ struct FromFilterReadWrite : public FromFilterConcrete<Backend>
                 case TransferResult::WOULDBLOCK:
                     break;
             }
-            moved_data = true;
-        }
-
-        if (!moved_data && this->pfd_filter_stdout->revents & (POLLERR | POLLHUP)) {
-            // Filter stdout closed its endpoint
-            trace_streaming("  FromFilterReadWrite.on_poll: POLLERR|POLLUP on filter_stdout: closing it\n");
-            this->stream.filter_process->cmd.close_stdout();
-            this->pfd_filter_stdout->fd = -1;
         }
 
         return done;
@@ -555,7 +553,7 @@ struct FromFilterAbstract : public FromFilter<Backend>
                     throw std::runtime_error("unexpected result from feed_filter_stdin");
                 case TransferResult::EOF_SOURCE:
                     // Filter closed stdout, stop polling it
-                    done = true;
+                    this->close_stdout();
                     break;
                 case TransferResult::EOF_DEST:
                     throw std::runtime_error("unexpected result from feed_filter_stdin");
@@ -564,13 +562,6 @@ struct FromFilterAbstract : public FromFilter<Backend>
             }
         }
 
-        if (this->pfd_filter_stdout->revents & (POLLERR | POLLHUP))
-        {
-            // Filter stdout closed its endpoint
-            this->stream.filter_process->cmd.close_stdout();
-            this->pfd_filter_stdout->fd = -1;
-        }
-
         return done;
     }
 };
-- 
2.43.0


From 550320e5e5a82b93e70d7709d7950f1181acd24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 41/70] fix: data was sent twice to a postprocessing filter
 when splice turned out not to be available

Resume from what had already been sent instead of restarting.
---
 arki/stream/concrete.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/arki/stream/concrete.cc b/arki/stream/concrete.cc
index 5449ae6..37f4c75 100644
--- a/arki/stream/concrete.cc
+++ b/arki/stream/concrete.cc
@@ -107,6 +107,7 @@ SendResult ConcreteStreamOutputBase<Backend>::send_buffer(const void* data,
 
     if (filter_process)
     {
+        auto pre = filter_process->size_stdin;
         try
         {
             return filter_sender->send_buffer(data, size);
@@ -116,7 +117,10 @@ SendResult ConcreteStreamOutputBase<Backend>::send_buffer(const void* data,
             filter_sender.reset(
                 new FilterLoop<Backend, FromFilterConcreteFallback<Backend>>(
                     *this));
-            return filter_sender->send_buffer(data, size);
+            // Go on from what has already been sent to the filter
+            size_t sent = filter_process->size_stdin - pre;
+            return filter_sender->send_buffer(
+                static_cast<const uint8_t*>(data) + sent, size - sent);
         }
     }
     else
@@ -135,6 +139,7 @@ SendResult ConcreteStreamOutputBase<Backend>::send_line(const void* data,
 
     if (filter_process)
     {
+        auto pre = filter_process->size_stdin;
         try
         {
             return filter_sender->send_line(data, size);
@@ -144,7 +149,10 @@ SendResult ConcreteStreamOutputBase<Backend>::send_line(const void* data,
             filter_sender.reset(
                 new FilterLoop<Backend, FromFilterConcreteFallback<Backend>>(
                     *this));
-            return filter_sender->send_line(data, size);
+            // Go on from what has already been sent to the filter
+            size_t sent = filter_process->size_stdin - pre;
+            return filter_sender->send_line(
+                static_cast<const uint8_t*>(data) + sent, size - sent);
         }
     }
     else
@@ -164,6 +172,7 @@ SendResult ConcreteStreamOutputBase<Backend>::send_file_segment(
 
     if (filter_process)
     {
+        auto pre = filter_process->size_stdin;
         try
         {
             return filter_sender->send_file_segment(fd, offset, size);
@@ -173,7 +182,10 @@ SendResult ConcreteStreamOutputBase<Backend>::send_file_segment(
             filter_sender.reset(
                 new FilterLoop<Backend, FromFilterConcreteFallback<Backend>>(
                     *this));
-            return filter_sender->send_file_segment(fd, offset, size);
+            // Go on from what has already been sent to the filter
+            size_t sent = filter_process->size_stdin - pre;
+            return filter_sender->send_file_segment(fd, offset + sent,
+                                                    size - sent);
         }
     }
     else
-- 
2.43.0


From 2a526b985b951c2fa3fe264e9a653c94941e0908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 42/70] fix: stopping or aborting a postprocessing filter could
 hang forever

abort_filter waited for a filter that was itself waiting for its input to be
closed, and stop_filter waited for a filter blocked writing to a pipe nobody
was reading, after the destination was closed.
---
 arki/stream/base.cc   |  9 +++++++--
 arki/stream/filter.cc | 10 ++++++++++
 arki/stream/filter.h  |  4 ++++
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/arki/stream/base.cc b/arki/stream/base.cc
index e91a3ed..fdd1fea 100644
--- a/arki/stream/base.cc
+++ b/arki/stream/base.cc
@@ -47,9 +47,10 @@ std::unique_ptr<FilterProcess> BaseStreamOutput::stop_filter()
     flush_filter_output();
 
     std::unique_ptr<FilterProcess> proc = std::move(filter_process);
-    proc->stop();
-
     filter_sender.reset();
+    // If the output was closed early, the filter may still be writing
+    proc->close_pipes();
+    proc->stop();
 
     return proc;
 }
@@ -60,6 +61,10 @@ void BaseStreamOutput::abort_filter()
         return;
 
     std::unique_ptr<FilterProcess> proc = std::move(filter_process);
+    filter_sender.reset();
+    // Without this, a filter that is reading its input or writing its output
+    // would never end
+    proc->close_pipes();
     proc->stop();
 }
 
diff --git a/arki/stream/filter.cc b/arki/stream/filter.cc
index 2f29fa5..de9c036 100644
--- a/arki/stream/filter.cc
+++ b/arki/stream/filter.cc
@@ -35,6 +35,16 @@ void FilterProcess::start()
         child_stderr.setfl(child_stderr.getfl() | O_NONBLOCK);
 }
 
+void FilterProcess::close_pipes()
+{
+    if (cmd.get_stdin() != -1)
+        cmd.close_stdin();
+    if (cmd.get_stdout() != -1)
+        cmd.close_stdout();
+    if (cmd.get_stderr() != -1)
+        cmd.close_stderr();
+}
+
 void FilterProcess::stop()
 {
     if (timeout_ms == -1)
diff --git a/arki/stream/filter.h b/arki/stream/filter.h
index 587391b..02e849a 100644
--- a/arki/stream/filter.h
+++ b/arki/stream/filter.h
@@ -36,6 +36,10 @@ public:
     FilterProcess(const std::vector<std::string>& args, int timeout_ms = -1);
 
     void start();
+
+    /// Close our ends of the pipes connected to the filter
+    void close_pipes();
+
     void stop();
     void terminate();
 
-- 
2.43.0


From c7012eddf25f5014a363829cf0064c0e5ae35857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 43/70] fix: tar segments: data whose size is a multiple of 512
 hid the data after it from rescans

The padding of data that is already aligned to tar blocks added an empty block,
which tells tar readers that the archive ends.
---
 arki/segment/data/tar.cc | 14 +++++++++++---
 arki/utils/tar.cc        |  4 ++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/arki/segment/data/tar.cc b/arki/segment/data/tar.cc
index 1bd025d..95aad6c 100644
--- a/arki/segment/data/tar.cc
+++ b/arki/segment/data/tar.cc
@@ -89,7 +89,7 @@ struct CheckBackend : public AppendCheckBackend
 
     size_t actual_end(off_t offset, size_t size) const override
     {
-        return offset + size + 512 - (size % 512);
+        return offset + (size + 511) / 512 * 512;
     }
 
     State check()
@@ -199,9 +199,17 @@ bool Reader::scan_data(metadata_dest_func dest)
             throw_runtime_error("cannot scan ", fd.path(),
                                 ": archive is truncated at offset ", pos);
 
-        // The archive ends with an empty block
+        // The archive ends with two empty blocks. Only one is padding added
+        // after data whose size is a multiple of the block size
         if (header.data[0] == 0)
-            return true;
+        {
+            pos += sizeof(header.data);
+            if (fd.pread(header.data, sizeof(header.data), pos) !=
+                    sizeof(header.data) ||
+                header.data[0] == 0)
+                return true;
+            continue;
+        }
 
         size_t size      = strtoull(header.data + 124, nullptr, 8);
         off_t offset     = pos + sizeof(header.data);
diff --git a/arki/utils/tar.cc b/arki/utils/tar.cc
index cb0f604..4714531 100644
--- a/arki/utils/tar.cc
+++ b/arki/utils/tar.cc
@@ -117,7 +117,7 @@ void TarOutput::_write(const std::string& data)
 {
     out.write_all_or_retry(data);
     out_pos += data.size();
-    unsigned pad_len = 512 - (data.size() % 512);
+    unsigned pad_len = (512 - (data.size() % 512)) % 512;
     if (pad_len)
     {
         std::vector<uint8_t> pad(pad_len, 0);
@@ -130,7 +130,7 @@ void TarOutput::_write(const std::vector<uint8_t>& data)
 {
     out.write_all_or_retry(data);
     out_pos += data.size();
-    unsigned pad_len = 512 - (data.size() % 512);
+    unsigned pad_len = (512 - (data.size() % 512)) % 512;
     if (pad_len)
     {
         std::vector<uint8_t> pad(pad_len, 0);
-- 
2.43.0


From 6edd1179fa7986efeeb20d15be99d95df349b605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 44/70] fix: dir segments: an error reading a file during a
 rescan removed its data from the segment

The file was then considered deleted data, and the next repack removed it.
---
 arki/segment/data/dir.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arki/segment/data/dir.cc b/arki/segment/data/dir.cc
index b87b7c7..abc53db 100644
--- a/arki/segment/data/dir.cc
+++ b/arki/segment/data/dir.cc
@@ -1003,6 +1003,12 @@ bool Scanner::scan(std::function<void(const std::string&)> reporter,
         {
             md = scanner->scan_file_single(segment.abspath() / fi.second.fname);
         }
+        catch (std::system_error&)
+        {
+            // Not being able to read the data does not mean that the data is
+            // not valid
+            throw;
+        }
         catch (std::exception& e)
         {
             stringstream out;
-- 
2.43.0


From ddf0b40a2702ae443abc83dadbccefe7f2903651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:54 +0000
Subject: [PATCH 45/70] fix: arki-scan: data of a source that could not be read
 was imported together with the next source

---
 arki/python/arki-scan/dispatch.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arki/python/arki-scan/dispatch.cc b/arki/python/arki-scan/dispatch.cc
index 8d6f654..5c63b25 100644
--- a/arki/python/arki-scan/dispatch.cc
+++ b/arki/python/arki-scan/dispatch.cc
@@ -44,6 +44,11 @@ DispatchResults MetadataDispatch::process(dataset::Reader& ds,
 
     results->clear();
 
+    // If reading the previous source failed, discard what was read and not
+    // dispatched, so that it does not get imported together with this one
+    partial_batch->clear();
+    partial_batch_data_size = 0;
+
     copyok_stream.reset();
     if (!dir_copyok.empty())
         copyok = std::make_shared<core::File>(dir_copyok / name.filename());
-- 
2.43.0


From af5ab3ccafe4d18f0b43e80031e2152bf016f2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:52 +0000
Subject: [PATCH 46/70] fix: simple datasets: an error reading MANIFEST must
 not make later imports forget the segments in it

---
 arki/dataset/simple/manifest.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/arki/dataset/simple/manifest.cc b/arki/dataset/simple/manifest.cc
index a939abd..f855c6b 100644
--- a/arki/dataset/simple/manifest.cc
+++ b/arki/dataset/simple/manifest.cc
@@ -152,14 +152,16 @@ bool Reader::reread()
     if (inode == last_inode)
         return inode != 0;
 
-    last_inode = inode;
     if (inode == 0)
     {
+        last_inode = 0;
         segmentinfo_cache.clear();
         return false;
     }
 
     segmentinfo_cache = read_plain(pathname);
+    // Set this last: if reading fails, the cache is not up to date
+    last_inode = inode;
     return true;
 }
 
-- 
2.43.0


From 7df040ea67944dd64c2b777aa751d718b4934434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:15 +0000
Subject: [PATCH 47/70] fix: simple datasets: a reused inode number made
 imports overwrite MANIFEST with an outdated one

---
 arki/dataset/simple/manifest.cc | 23 +++++++++++++++--------
 arki/dataset/simple/manifest.h  |  5 ++++-
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/arki/dataset/simple/manifest.cc b/arki/dataset/simple/manifest.cc
index f855c6b..af07b68 100644
--- a/arki/dataset/simple/manifest.cc
+++ b/arki/dataset/simple/manifest.cc
@@ -131,9 +131,9 @@ Reader::Reader(const std::filesystem::path& root) : m_root(root) {}
 bool Reader::reread()
 {
     auto pathname = m_root / "MANIFEST";
-    ino_t inode   = sys::inode(pathname, 0);
+    auto st       = sys::stat(pathname);
 
-    if (inode == 0)
+    if (!st)
     {
         // Try to fallback on legacy sqlite
         auto sqlite_pathname = m_root / "index.sqlite";
@@ -149,19 +149,26 @@ bool Reader::reread()
         }
     }
 
-    if (inode == last_inode)
-        return inode != 0;
-
-    if (inode == 0)
+    if (!st)
     {
+        if (last_inode != 0)
+            segmentinfo_cache.clear();
         last_inode = 0;
-        segmentinfo_cache.clear();
         return false;
     }
 
+    // The inode number alone is not enough to tell: each time MANIFEST is
+    // replaced its inode gets free, and the file system may use it again
+    if (st->st_ino == last_inode && st->st_size == last_size &&
+        st->st_mtim.tv_sec == last_mtime.tv_sec &&
+        st->st_mtim.tv_nsec == last_mtime.tv_nsec)
+        return true;
+
     segmentinfo_cache = read_plain(pathname);
     // Set this last: if reading fails, the cache is not up to date
-    last_inode = inode;
+    last_inode = st->st_ino;
+    last_size  = st->st_size;
+    last_mtime = st->st_mtim;
     return true;
 }
 
diff --git a/arki/dataset/simple/manifest.h b/arki/dataset/simple/manifest.h
index 04b126e..6629347 100644
--- a/arki/dataset/simple/manifest.h
+++ b/arki/dataset/simple/manifest.h
@@ -51,7 +51,10 @@ protected:
     bool legacy_sql = false;
 
     std::vector<SegmentInfo> segmentinfo_cache;
-    ino_t last_inode = 0;
+    /// Identify the version of MANIFEST that is in segmentinfo_cache
+    ino_t last_inode           = 0;
+    off_t last_size            = 0;
+    struct timespec last_mtime = {0, 0};
 
 public:
     explicit Reader(const std::filesystem::path& root);
-- 
2.43.0


From 6b13be75f4cccc3358ec42cf33c9bd4a53c67f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:01 +0000
Subject: [PATCH 48/70] fix: simple datasets: an import that failed writing
 metadata hid the data already in the segment

---
 arki/segment/data.h      |  8 ++++++++
 arki/segment/data/dir.cc | 27 +++++++++++++++++++++++++--
 arki/segment/data/dir.h  |  7 +++++++
 arki/segment/data/fd.cc  | 13 +++++++++++--
 arki/segment/data/fd.h   |  2 ++
 arki/segment/metadata.cc | 17 ++++++++++-------
 6 files changed, 63 insertions(+), 11 deletions(-)

diff --git a/arki/segment/data.h b/arki/segment/data.h
index 18e7a07..60b7f83 100644
--- a/arki/segment/data.h
+++ b/arki/segment/data.h
@@ -210,6 +210,14 @@ public:
      * commit.
      */
     virtual const types::source::Blob& append(Metadata& md) = 0;
+
+    /**
+     * Make sure that what has been appended is on disk.
+     *
+     * After this, commit() only needs to change things in memory, and the
+     * transaction can still be rolled back.
+     */
+    virtual void sync() = 0;
 };
 
 class Checker : public std::enable_shared_from_this<Checker>
diff --git a/arki/segment/data/dir.cc b/arki/segment/data/dir.cc
index abc53db..5047f90 100644
--- a/arki/segment/data/dir.cc
+++ b/arki/segment/data/dir.cc
@@ -478,6 +478,9 @@ BaseWriter<Data>::BaseWriter(const segment::WriterConfig& config,
     // Ensure that the directory 'abspath' exists
     std::filesystem::create_directories(this->segment().abspath());
     seqfile.open();
+    struct stat st;
+    seqfile.fstat(st);
+    initial_mtime = st.st_mtim;
     // current_pos is the last sequence generated
     current_pos = seqfile.read_sequence();
     if (!seqfile.new_file)
@@ -508,6 +511,7 @@ template <typename Data>
 const types::source::Blob& BaseWriter<Data>::append(Metadata& md)
 {
     this->fired = false;
+    synced      = false;
 
     File fd(this->segment().abspath() /
                 SequenceFile::data_fname(current_pos, this->segment().format()),
@@ -533,9 +537,9 @@ const types::source::Blob& BaseWriter<Data>::append(Metadata& md)
     return *pending.back().new_source;
 }
 
-template <typename Data> void BaseWriter<Data>::commit()
+template <typename Data> void BaseWriter<Data>::sync()
 {
-    if (this->fired)
+    if (this->fired || synced)
         return;
     // If nothing was appended (for example, because all data were duplicates),
     // do not touch the sequence file, or the segment would look newer than its
@@ -546,6 +550,23 @@ template <typename Data> void BaseWriter<Data>::commit()
         if (!this->segment().session().eatmydata)
             seqfile.fdatasync();
     }
+    synced = true;
+}
+
+template <typename Data> void BaseWriter<Data>::restore_timestamp() noexcept
+{
+    const struct timespec times[2] = {
+        {0, UTIME_OMIT},
+        initial_mtime
+    };
+    ::futimens(seqfile, times);
+}
+
+template <typename Data> void BaseWriter<Data>::commit()
+{
+    if (this->fired)
+        return;
+    sync();
     for (auto& p : pending)
         p.set_source();
     pending.clear();
@@ -559,6 +580,7 @@ template <typename Data> void BaseWriter<Data>::rollback()
         return;
     for (auto fn : written)
         sys::unlink(fn);
+    restore_timestamp();
     pending.clear();
     written.clear();
     this->fired = true;
@@ -570,6 +592,7 @@ template <typename Data> void BaseWriter<Data>::rollback_nothrow() noexcept
         return;
     for (auto fn : written)
         ::unlink(fn.c_str());
+    restore_timestamp();
     pending.clear();
     written.clear();
     this->fired = true;
diff --git a/arki/segment/data/dir.h b/arki/segment/data/dir.h
index 4a7d57a..9f4e498 100644
--- a/arki/segment/data/dir.h
+++ b/arki/segment/data/dir.h
@@ -81,6 +81,9 @@ public:
     std::vector<std::filesystem::path> written;
     std::vector<data::Writer::PendingMetadata> pending;
     size_t current_pos;
+    bool synced = false;
+    /// Timestamp that the sequence file had before we changed it
+    struct timespec initial_mtime;
 
     BaseWriter(const segment::WriterConfig& config,
                std::shared_ptr<const Data> data);
@@ -90,11 +93,15 @@ public:
     /// happened before the sequence file could be updated
     void skip_existing();
 
+    /// Set the timestamp of the sequence file to what it was before sync()
+    void restore_timestamp() noexcept;
+
     virtual void write_file(Metadata& md, core::NamedFileDescriptor& fd) = 0;
 
     size_t next_offset() const override;
     const types::source::Blob& append(Metadata& md) override;
 
+    void sync() override;
     void commit() override;
     void rollback() override;
     void rollback_nothrow() noexcept override;
diff --git a/arki/segment/data/fd.cc b/arki/segment/data/fd.cc
index 5d1dafd..4eebe28 100644
--- a/arki/segment/data/fd.cc
+++ b/arki/segment/data/fd.cc
@@ -265,6 +265,7 @@ template <typename Data, typename File>
 const types::source::Blob& Writer<Data, File>::append(Metadata& md)
 {
     this->fired                      = false;
+    synced                           = false;
     const arki::metadata::Data& data = md.get_data();
     pending.emplace_back(this->config, md,
                          source::Blob::create_unlocked(
@@ -275,12 +276,20 @@ const types::source::Blob& Writer<Data, File>::append(Metadata& md)
     return *pending.back().new_source;
 }
 
-template <typename Data, typename File> void Writer<Data, File>::commit()
+template <typename Data, typename File> void Writer<Data, File>::sync()
 {
-    if (this->fired)
+    if (this->fired || synced)
         return;
     if (!this->segment().session().eatmydata)
         fd.fsync();
+    synced = true;
+}
+
+template <typename Data, typename File> void Writer<Data, File>::commit()
+{
+    if (this->fired)
+        return;
+    sync();
     for (auto& p : pending)
         p.set_source();
     pending.clear();
diff --git a/arki/segment/data/fd.h b/arki/segment/data/fd.h
index 8b6d63d..1f90c29 100644
--- a/arki/segment/data/fd.h
+++ b/arki/segment/data/fd.h
@@ -66,6 +66,7 @@ public:
     struct timespec initial_mtime;
     off_t initial_size;
     off_t current_pos;
+    bool synced = false;
     std::vector<segment::data::Writer::PendingMetadata> pending;
 
     Writer(const segment::WriterConfig& config,
@@ -75,6 +76,7 @@ public:
     size_t next_offset() const override;
     const types::source::Blob& append(Metadata& md) override;
 
+    void sync() override;
     void commit() override;
     void rollback() override;
     void rollback_nothrow() noexcept override;
diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index 592b80b..9478b30 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -416,15 +416,11 @@ void Writer::add(const Metadata& md, const types::source::Blob& source)
 
 void Writer::write_metadata()
 {
-    auto path_md  = segment().abspath_metadata();
-    auto path_sum = segment().abspath_summary();
-
     mds.prepare_for_segment_metadata();
     // If we are interrupted, do not leave the old summary together with the new
     // metadata
-    std::filesystem::remove(path_sum);
-    mds.writeAtomically(path_md);
-    sum.writeAtomically(path_sum);
+    std::filesystem::remove(segment().abspath_summary());
+    mds.writeAtomically(segment().abspath_metadata());
 }
 
 Writer::AcquireResult Writer::acquire(arki::metadata::InboundBatch& batch,
@@ -441,10 +437,17 @@ Writer::AcquireResult Writer::acquire(arki::metadata::InboundBatch& batch,
             e->result      = arki::metadata::Inbound::Result::OK;
             e->destination = config.destination_name;
         }
+
+        // Until the metadata is in place we can still roll back. If the new
+        // data were left there without its metadata, the segment would look
+        // newer than the metadata, and be skipped by queries
+        data_writer->sync();
+        write_metadata();
     }
     catch (std::exception& e)
     {
         // returning here before commit means no action is taken
+        data_writer->rollback_nothrow();
         batch.set_all_error("Failed to store in '" + config.destination_name +
                             "': " + e.what());
         AcquireResult res;
@@ -459,7 +462,7 @@ Writer::AcquireResult Writer::acquire(arki::metadata::InboundBatch& batch,
     }
 
     data_writer->commit();
-    write_metadata();
+    sum.writeAtomically(segment().abspath_summary());
 
     auto ts = data->timestamp();
     if (!ts)
-- 
2.43.0


From 73a3dd670fe6987e1199297bde930bfa1f958199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:29 +0000
Subject: [PATCH 49/70] fix: merged datasets: queries stopped by their consumer
 failed, and the others returned false

After the consumer asked to stop, all readers were shut down, and then the loop
went on asking for data, shutting the readers down again, which fails since
their threads cannot be joined twice.

The value returned was also the opposite of what query_data documents.
---
 arki/dataset/merged.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arki/dataset/merged.cc b/arki/dataset/merged.cc
index ce85994..5524d81 100644
--- a/arki/dataset/merged.cc
+++ b/arki/dataset/merged.cc
@@ -351,10 +351,11 @@ bool Reader::impl_query_data(const query::Data& query, metadata_dest_func dest)
         {
             canceled = true;
             readers.cancel();
+            break;
         }
     }
 
-    return track.done(canceled);
+    return track.done(!canceled);
 }
 
 void Reader::impl_query_summary(const Matcher& matcher, Summary& summary)
-- 
2.43.0


From 226d5450a3dc871e8fc55334a2c97b4a4202054c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:29 +0000
Subject: [PATCH 50/70] fix: merged datasets: hang or crash when a reader
 thread could not be started

When a thread could not be started, those that were already running were left
waiting forever for someone to read their data, or kept running on objects that
were already partially destroyed.
---
 arki/dataset/merged.cc | 45 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 7 deletions(-)

diff --git a/arki/dataset/merged.cc b/arki/dataset/merged.cc
index 5524d81..07cdd06 100644
--- a/arki/dataset/merged.cc
+++ b/arki/dataset/merged.cc
@@ -32,6 +32,7 @@ protected:
     std::shared_ptr<Metadata> buffer[buf_size];
     size_t head, tail, size;
     mutable bool m_done;
+    bool m_discard = false;
 
 public:
     SyncBuffer(const SyncBuffer&)             = delete;
@@ -45,7 +46,10 @@ public:
     void push(std::shared_ptr<Metadata> val)
     {
         std::unique_lock<std::mutex> lock(mutex);
-        cond.wait(lock, [this] { return (head + 1) % size != tail; });
+        cond.wait(lock,
+                  [this] { return (head + 1) % size != tail || m_discard; });
+        if (m_discard)
+            return;
         buffer[head] = val;
         head         = (head + 1) % size;
         cond.notify_all();
@@ -80,6 +84,17 @@ public:
         return buffer[tail].get();
     }
 
+    /**
+     * Stop storing elements: from now on, everything that is pushed gets
+     * discarded, and push does not wait.
+     */
+    void discard()
+    {
+        std::lock_guard<std::mutex> lock(mutex);
+        m_discard = true;
+        cond.notify_all();
+    }
+
     bool isDone()
     {
         std::lock_guard<std::mutex> lock(mutex);
@@ -108,12 +123,7 @@ protected:
 
 public:
     ReaderThread() : all_ok(true) {}
-    virtual ~ReaderThread()
-    {
-        all_ok.store(false);
-        if (thread.joinable())
-            thread.join();
-    }
+    virtual ~ReaderThread() {}
     virtual void main() = 0;
     void start()
     {
@@ -121,6 +131,20 @@ public:
     }
     void join() { thread.join(); }
     void stop_producing() { all_ok.store(false); }
+
+protected:
+    /**
+     * Wait for the thread to end, if it is still running.
+     *
+     * This needs to be called by the destructors of subclasses, since the
+     * thread uses their members
+     */
+    void stop()
+    {
+        stop_producing();
+        if (thread.joinable())
+            thread.join();
+    }
 };
 
 /**
@@ -135,6 +159,12 @@ public:
     SyncBuffer mdbuf;
 
     MetadataReader() {}
+    ~MetadataReader()
+    {
+        // If nobody is going to read the rest of the data, do not wait for them
+        mdbuf.discard();
+        stop();
+    }
 
     void main() override
     {
@@ -175,6 +205,7 @@ public:
     string errorbuf;
 
     SummaryReader() {}
+    ~SummaryReader() { stop(); }
 
     void main() override
     {
-- 
2.43.0


From 1caff88c4abb61884daf7322816b1fc68d9c1172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:29 +0000
Subject: [PATCH 51/70] fix: progress of queries on archives, and on merged
 datasets with one component, was counted twice

---
 arki/dataset/local.cc  | 7 ++++++-
 arki/dataset/merged.cc | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/arki/dataset/local.cc b/arki/dataset/local.cc
index 0ccb2dd..336170e 100644
--- a/arki/dataset/local.cc
+++ b/arki/dataset/local.cc
@@ -2,6 +2,7 @@
 #include "archive.h"
 #include "arki/dataset/time.h"
 #include "arki/metadata.h"
+#include "arki/query.h"
 #include "arki/types/reftime.h"
 #include "arki/utils/string.h"
 #include "arki/utils/sys.h"
@@ -80,7 +81,11 @@ bool Reader::impl_query_data(const query::Data& q, metadata_dest_func dest)
 {
     if (!dataset().hasArchive())
         return true;
-    return archive()->query_data(q, dest);
+
+    // Progress is already reported by the caller: do not report it twice
+    query::Data subquery = q;
+    subquery.progress    = nullptr;
+    return archive()->query_data(subquery, dest);
 }
 
 void Reader::impl_query_summary(const Matcher& matcher, Summary& summary)
diff --git a/arki/dataset/merged.cc b/arki/dataset/merged.cc
index 07cdd06..88f7d43 100644
--- a/arki/dataset/merged.cc
+++ b/arki/dataset/merged.cc
@@ -351,7 +351,12 @@ bool Reader::impl_query_data(const query::Data& query, metadata_dest_func dest)
 
     // Handle the trivial case of only one dataset
     if (datasets.size() == 1)
-        return track.done(datasets[0]->query_data(query, dest));
+    {
+        // Do not report progress twice
+        query::Data subquery = query;
+        subquery.progress    = nullptr;
+        return track.done(datasets[0]->query_data(subquery, dest));
+    }
 
     // Start all the readers
     MetadataReaderPool readers(datasets, query);
-- 
2.43.0


From 41b95ea56aa4a2062149a67cbb7752829a6d07ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:29 +0000
Subject: [PATCH 52/70] fix: sorting data by intervals did not keep the
 intervals apart

Data from each segment, and data coming from multiple datasets, were sorted
ignoring the interval of the sort expression.
---
 arki/metadata/sort.cc | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/arki/metadata/sort.cc b/arki/metadata/sort.cc
index 43c985b..8047271 100644
--- a/arki/metadata/sort.cc
+++ b/arki/metadata/sort.cc
@@ -113,9 +113,37 @@ struct IntervalCompare : public Items
 
     int compare(const Metadata& a, const Metadata& b) const override
     {
+        // Data in different intervals go one interval after the other
+        const Reftime* rta = a.get<Reftime>();
+        const Reftime* rtb = b.get<Reftime>();
+        if (rta && rtb)
+        {
+            Time ta = start_of_interval(rta->get_Position());
+            Time tb = start_of_interval(rtb->get_Position());
+            if (int cmp = ta.compare(tb))
+                return cmp;
+        }
+        else if (rta || rtb)
+            return rta ? 1 : -1;
+
         return Items::compare(a, b);
     }
 
+    /// Return the start of the interval that contains the given time
+    Time start_of_interval(Time time) const
+    {
+        switch (m_interval)
+        {
+            case YEAR:   time.mo = 1; // Falls through
+            case MONTH:  time.da = 1; // Falls through
+            case DAY:    time.ho = 0; // Falls through
+            case HOUR:   time.mi = 0; // Falls through
+            case MINUTE: time.se = 0; // Falls through
+            case NONE:   break;
+        }
+        return time;
+    }
+
     std::string toString() const override
     {
         switch (m_interval)
-- 
2.43.0


From ce4f9d91997254bba779b327bd876d229ed93ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:29 +0000
Subject: [PATCH 53/70] fix: sorted queries sent more data to consumers that
 asked to stop

---
 arki/dataset/simple/reader.cc | 5 +++--
 arki/metadata/sort.cc         | 7 ++++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/arki/dataset/simple/reader.cc b/arki/dataset/simple/reader.cc
index e524f14..344ecf6 100644
--- a/arki/dataset/simple/reader.cc
+++ b/arki/dataset/simple/reader.cc
@@ -67,8 +67,9 @@ bool Reader::impl_query_data(const query::Data& q, metadata_dest_func dest)
         auto segment = dataset().segment_session->segment_from_relpath(
             segmentinfo.relpath);
         auto reader = segment->reader(lock);
-        reader->query_data(
-            q, [&](std::shared_ptr<Metadata> md) { return sorter.add(md); });
+        if (!reader->query_data(
+                q, [&](std::shared_ptr<Metadata> md) { return sorter.add(md); }))
+            return track.done(false);
         if (!sorter.flush())
             return track.done(false);
     }
diff --git a/arki/metadata/sort.cc b/arki/metadata/sort.cc
index 8047271..e764b68 100644
--- a/arki/metadata/sort.cc
+++ b/arki/metadata/sort.cc
@@ -231,18 +231,19 @@ bool Stream::add(std::shared_ptr<Metadata> m)
         auto time = rt->get_Position();
         if (hasInterval && (!endofperiod.get() || time > *endofperiod))
         {
-            flush();
+            bool res = flush();
             buffer.push_back(m);
             setEndOfPeriod(time);
+            return res;
         }
         else
             buffer.push_back(m);
     }
     else
     {
-        if (hasInterval)
-            flush();
+        bool res = hasInterval ? flush() : true;
         buffer.push_back(m);
+        return res;
     }
     return true;
 }
-- 
2.43.0


From 91fc8dd37a2323c925c617cd78b47382d870c2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:29 +0000
Subject: [PATCH 54/70] fix: the umask was changed while reading it, affecting
 other threads

A thread that found the umask as temporarily changed by another left the process
unable to create files with any permissions.
---
 arki/dataset/index/summarycache.cc |  6 +-----
 arki/utils/sys.cc                  | 34 +++++++++++++++++++++++-------
 arki/utils/sys.h                   |  8 +++++++
 3 files changed, 35 insertions(+), 13 deletions(-)

diff --git a/arki/dataset/index/summarycache.cc b/arki/dataset/index/summarycache.cc
index 926cb50..3159753 100644
--- a/arki/dataset/index/summarycache.cc
+++ b/arki/dataset/index/summarycache.cc
@@ -68,7 +68,7 @@ bool SummaryCache::read(Summary& s, int year, int month)
 }
 
 SummaryCache::Update::Update(const std::filesystem::path& pathname)
-    : pathname(pathname), out(sys::File::mkstemp(pathname))
+    : pathname(pathname), out(sys::File::create_unique(pathname, 0666))
 {
 }
 
@@ -82,10 +82,6 @@ bool SummaryCache::Update::commit(const Summary& s)
 {
     auto encoded = s.encode(true);
 
-    // Set the file permissions, honoring umask
-    mode_t mask = umask(0777);
-    umask(mask);
-    out.fchmod(0666 & ~mask);
     out.write_all_or_retry(encoded);
 
     // Make sure the contents hit the disk before the rename does, or after a
diff --git a/arki/utils/sys.cc b/arki/utils/sys.cc
index 3979db5..f813d3a 100644
--- a/arki/utils/sys.cc
+++ b/arki/utils/sys.cc
@@ -1,6 +1,7 @@
 #include "sys.h"
 #include "string.h"
 #include <algorithm>
+#include <atomic>
 #include <cerrno>
 #include <csignal>
 #include <cstddef>
@@ -1000,6 +1001,28 @@ File File::mkstemp(char* pathname_template)
     return File(fd, pathname_template);
 }
 
+File File::create_unique(const std::filesystem::path& prefix, mode_t mode)
+{
+    static std::atomic<unsigned> sequence{0};
+
+    while (true)
+    {
+        std::filesystem::path path(prefix);
+        path += "." + std::to_string(::getpid()) + "-" +
+                std::to_string(sequence.fetch_add(1)) + ".tmp";
+        int fd = ::open(path.c_str(), O_RDWR | O_CREAT | O_EXCL | O_CLOEXEC,
+                        mode);
+        if (fd >= 0)
+            return File(fd, path);
+        // Try another name if the file exists, for example left there by a
+        // process that was interrupted
+        if (errno != EEXIST)
+            throw std::system_error(errno, std::system_category(),
+                                    "cannot create temporary file "s +
+                                        path.native());
+    }
+}
+
 /*
  * Tempfile
  */
@@ -1147,17 +1170,12 @@ void write_file_atomically(const std::string& file, const void* data,
 void write_file_atomically(const std::filesystem::path& file, const void* data,
                            size_t size, mode_t mode)
 {
-    File out = File::mkstemp(file);
+    // Let the system apply umask to the permissions. The only way to read the
+    // umask is to change it, and it is shared among all threads
+    File out = File::create_unique(file, mode);
 
-    // Read the umask
-    mode_t mask = umask(0777);
-    umask(mask);
-
-    // Set the file permissions, honoring umask
     try
     {
-        out.fchmod(mode & ~mask);
-
         out.write_all_or_retry(data, size);
 
         // Make sure the contents hit the disk before the rename does, or after
diff --git a/arki/utils/sys.h b/arki/utils/sys.h
index 54b5800..dfb2ea5 100644
--- a/arki/utils/sys.h
+++ b/arki/utils/sys.h
@@ -595,6 +595,14 @@ public:
     mkstemp(const std::string& prefix);
     static File mkstemp(const char* prefix);
     static File mkstemp(char* pathname_template);
+
+    /**
+     * Create a new, uniquely named file, with a name that starts with prefix.
+     *
+     * Differently from mkstemp, the file is created with the given permission
+     * mode, honoring umask.
+     */
+    static File create_unique(const std::filesystem::path& prefix, mode_t mode);
 };
 
 /**
-- 
2.43.0


From 0299bd4af231a27b524ef3f7a03fc766b4371a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 55/70] fix: metadata files could not be read when they point
 to data outside of their directory

---
 arki/dataset/file.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/arki/dataset/file.cc b/arki/dataset/file.cc
index f91cebc..dc01622 100644
--- a/arki/dataset/file.cc
+++ b/arki/dataset/file.cc
@@ -293,13 +293,23 @@ void FdFile::ensure_data_is_accessible(Metadata& md)
         return;
     const auto& blob = md.sourceBlob();
     std::shared_ptr<segment::Session> session;
-    if (blob.basedir == segment_session->root)
+    std::filesystem::path relpath = blob.filename;
+    if (relpath.is_absolute() ||
+        (!relpath.empty() && *relpath.begin() == ".."))
+    {
+        // The data can be anywhere, and not only under the directory where the
+        // metadata is
+        auto abspath = blob.absolutePathname();
+        session      = std::make_shared<SegmentSession>(abspath.parent_path());
+        relpath      = abspath.filename();
+    }
+    else if (blob.basedir == segment_session->root)
         session = segment_session;
     else
         session = std::make_shared<SegmentSession>(blob.basedir);
 
     auto segment =
-        session->segment_from_relpath_and_format(blob.filename, blob.format);
+        session->segment_from_relpath_and_format(relpath, blob.format);
     auto reader = segment->reader(std::make_shared<core::lock::NullReadLock>());
     md.sourceBlob().lock(reader);
 }
-- 
2.43.0


From 8d2198ddc0be007763648ee830f94e7c7675dd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 56/70] fix: metadata files gave no results when queried more
 than once

---
 arki/dataset/file.cc | 9 +++++++++
 arki/dataset/file.h  | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/arki/dataset/file.cc b/arki/dataset/file.cc
index dc01622..cfd5eb4 100644
--- a/arki/dataset/file.cc
+++ b/arki/dataset/file.cc
@@ -287,6 +287,13 @@ FdFile::FdFile(std::shared_ptr<Session> session, const core::cfg::Section& cfg)
 
 FdFile::~FdFile() {}
 
+void FdFile::start_scan()
+{
+    if (scanned)
+        fd.lseek(0);
+    scanned = true;
+}
+
 void FdFile::ensure_data_is_accessible(Metadata& md)
 {
     if (!md.has_source_blob())
@@ -344,6 +351,7 @@ ArkimetFile::~ArkimetFile() {}
 
 bool ArkimetFile::scan(const query::Data& q, metadata_dest_func dest)
 {
+    start_scan();
     metadata::BinaryReader md_reader(fd);
     return scan_reader(md_reader, q, dest);
 }
@@ -362,6 +370,7 @@ YamlFile::~YamlFile() { delete reader; }
 
 bool YamlFile::scan(const query::Data& q, metadata_dest_func dest)
 {
+    start_scan();
     metadata::YamlReader yaml_reader(fd);
     return scan_reader(yaml_reader, q, dest);
 }
diff --git a/arki/dataset/file.h b/arki/dataset/file.h
index 6be7d33..bf0a952 100644
--- a/arki/dataset/file.h
+++ b/arki/dataset/file.h
@@ -87,7 +87,10 @@ class FdFile : public Dataset
 protected:
     std::shared_ptr<segment::Session> segment_session;
     core::File fd;
+    bool scanned = false;
 
+    /// Go back to the beginning of the file, if it has been scanned already
+    void start_scan();
     void ensure_data_is_accessible(Metadata& md);
     bool scan_reader(metadata::BaseReader& reader, const query::Data& q,
                      metadata_dest_func consumer);
-- 
2.43.0


From c14af62745891bc49dca4ba893233d8e5089c56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 57/70] fix: remote datasets: do not follow a loop of redirects
 forever

---
 arki/core/curl.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/arki/core/curl.cc b/arki/core/curl.cc
index 4ca5d08..1ab5335 100644
--- a/arki/core/curl.cc
+++ b/arki/core/curl.cc
@@ -15,6 +15,9 @@ namespace curl {
             throw core::curl::Exception(errcode, context);                     \
     } while (0)
 
+/// Maximum number of redirects followed for a request
+static const unsigned max_redirects = 20;
+
 Exception::Exception(CURLcode code, const std::string& context)
     : std::runtime_error("while " + context + ": " + curl_easy_strerror(code))
 {
@@ -95,7 +98,8 @@ void Request::set_method(const std::string& method) { this->method = method; }
 
 void Request::perform()
 {
-    actual_url = url;
+    actual_url         = url;
+    unsigned redirects = 0;
     while (true)
     {
         arkimet_exception_message.clear();
@@ -162,7 +166,13 @@ void Request::perform()
             checked("reading redirect url",
                     curl_easy_getinfo(curl, CURLINFO_REDIRECT_URL, &url));
             if (url)
+            {
+                // Do not follow a redirect loop forever
+                if (++redirects > max_redirects)
+                    throw std::runtime_error(
+                        "too many redirects while querying " + this->url);
                 actual_url = url;
+            }
             else
                 throw std::runtime_error(
                     "redirect code " + std::to_string(response_code) +
-- 
2.43.0


From c336b708862208bc23549c6b9c9153fd7d533792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 58/70] fix: remote datasets: a response that ends in the
 middle of a metadata was taken as complete

---
 arki/dataset/http.cc   | 11 +++++++++++
 arki/metadata/stream.h |  6 ++++++
 2 files changed, 17 insertions(+)

diff --git a/arki/dataset/http.cc b/arki/dataset/http.cc
index 99bc3bc..fa178db 100644
--- a/arki/dataset/http.cc
+++ b/arki/dataset/http.cc
@@ -74,6 +74,17 @@ struct MDStreamState : public core::curl::Request
     {
     }
 
+    void perform() override
+    {
+        Request::perform();
+
+        // If the length of the response is not known in advance, a connection
+        // that is closed too early looks like the end of the response
+        if (!mdc.consumer_canceled() && !mdc.complete())
+            throw std::runtime_error(
+                url + ": the response ends in the middle of a metadata");
+    }
+
     size_t process_body_chunk(void* ptr, size_t size, size_t nmemb,
                               void* stream) override
     {
diff --git a/arki/metadata/stream.h b/arki/metadata/stream.h
index bfd4cd2..52aed02 100644
--- a/arki/metadata/stream.h
+++ b/arki/metadata/stream.h
@@ -44,6 +44,12 @@ public:
      */
     size_t countBytesUnprocessed() const { return buffer.size(); }
 
+    /**
+     * Return true if the data received so far ends between two metadata, or
+     * false if the last metadata, or the data that follows it, is incomplete
+     */
+    bool complete() const { return state == METADATA && buffer.empty(); }
+
     /**
      * Send some data to the stream.
      *
-- 
2.43.0


From b64787e3e47f89c39c6a6e52db5a57e5a1fc1b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 59/70] fix: decoding a truncated metadata bundle read past the
 end of the data

---
 arki/core/binary.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arki/core/binary.cc b/arki/core/binary.cc
index 70e1fbc..66d74ed 100644
--- a/arki/core/binary.cc
+++ b/arki/core/binary.cc
@@ -99,6 +99,7 @@ BinaryDecoder BinaryDecoder::pop_metadata_bundle(std::string& signature,
 
     // Get length from next 4 bytes
     size_t len = pop_uint(4, "size of metadata bundle");
+    ensure_size(len, "body of metadata bundle");
 
     BinaryDecoder res(buf, len);
 
-- 
2.43.0


From 136a102b3fbf11e367306f253d6db924a755f793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 60/70] fix: reading metadata from abstract input files did not
 complete short reads

The rest of the header, or of inline data, was left in the input or
uninitialised.
---
 arki/metadata.cc     | 11 ++++++++++-
 arki/types/bundle.cc | 16 ++++++++++++----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/arki/metadata.cc b/arki/metadata.cc
index 669de8b..529f834 100644
--- a/arki/metadata.cc
+++ b/arki/metadata.cc
@@ -585,7 +585,16 @@ size_t Metadata::read_inline_data(core::AbstractInputFile& fd)
     iotrace::trace_file(fd, 0, si->size, "read inline data");
 
     // Read the inline data
-    fd.read(buf.data(), si->size);
+    size_t pos = 0;
+    while (pos < si->size)
+    {
+        size_t res = fd.read(buf.data() + pos, si->size - pos);
+        if (res == 0)
+            throw std::runtime_error(
+                fd.path().native() +
+                ": inline data not found after arkimet metadata");
+        pos += res;
+    }
     m_data = metadata::DataManager::get().to_data(s.format, std::move(buf));
 
     return si->size;
diff --git a/arki/types/bundle.cc b/arki/types/bundle.cc
index 515ee6f..415c7bb 100644
--- a/arki/types/bundle.cc
+++ b/arki/types/bundle.cc
@@ -3,6 +3,7 @@
 #include "arki/core/file.h"
 #include "arki/utils/sys.h"
 #include <algorithm>
+#include <stdexcept>
 
 using namespace arki::utils;
 using namespace arki::core;
@@ -95,10 +96,17 @@ size_t Bundle::read_header(AbstractInputFile& fd)
 
     // Read the rest of the first 8 bytes
     unsigned char hdr[8];
-    hdr[0]     = c;
-    size_t res = fd.read(hdr + 1, 7);
-    if (res < 7)
-        return false; // EOF
+    hdr[0] = c;
+    for (size_t pos = 1; pos < 8;)
+    {
+        // A read can return less than what was asked for
+        size_t res = fd.read(hdr + pos, 8 - pos);
+        if (res == 0)
+            throw std::runtime_error(fd.path().native() +
+                                     ": end of file found while reading the "
+                                     "header of a metadata bundle");
+        pos += res;
+    }
     count_read += 7;
 
     core::BinaryDecoder dec(hdr, 8);
-- 
2.43.0


From d50647b748dddfc662e060b37338c8b1f8332e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 61/70] fix: a truncated summary was read as an empty one

---
 arki/summary.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arki/summary.cc b/arki/summary.cc
index 4ed911e..8771a41 100644
--- a/arki/summary.cc
+++ b/arki/summary.cc
@@ -130,7 +130,8 @@ bool Summary::read(core::NamedFileDescriptor& in)
                                 "summary entry does not start with 'SU'");
 
     if (!bundle.read_data(in))
-        return false;
+        throw_consistency_error("parsing file " + in.path().native(),
+                                "summary entry is truncated");
 
     core::BinaryDecoder dec(bundle.data);
     read_inner(dec, bundle.version, in.path());
@@ -152,7 +153,8 @@ bool Summary::read(core::AbstractInputFile& in)
                                 "summary entry does not start with 'SU'");
 
     if (!bundle.read_data(in))
-        return false;
+        throw_consistency_error("parsing file " + in.path().native(),
+                                "summary entry is truncated");
 
     core::BinaryDecoder dec(bundle.data);
     read_inner(dec, bundle.version, in.path());
-- 
2.43.0


From 295f47c8bc8b8196714697ec0855425c6df9d6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:49 +0000
Subject: [PATCH 62/70] fix: arki-xargs crashed when splitting by time range
 data that has none

---
 arki/metadata/clusterer.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/arki/metadata/clusterer.cc b/arki/metadata/clusterer.cc
index 5ca9290..e2904d5 100644
--- a/arki/metadata/clusterer.cc
+++ b/arki/metadata/clusterer.cc
@@ -52,11 +52,11 @@ bool Clusterer::exceeds_timerange(const Metadata& md) const
 {
     if (not split_timerange)
         return false;
-    if (not last_timerange)
-        return false;
-    if (*last_timerange == *md.get<types::Timerange>())
-        return false;
-    return true;
+    const Timerange* tr = md.get<types::Timerange>();
+    if (not last_timerange or not tr)
+        // Data without a time range only goes with other data without one
+        return last_timerange or (count > 0 and tr);
+    return *last_timerange != *tr;
 }
 
 void Clusterer::start_batch(DataFormat new_format)
@@ -73,12 +73,13 @@ void Clusterer::add_to_batch(std::shared_ptr<Metadata> md)
     ++count;
     if (cur_interval[0] == -1 && max_interval != 0)
         md_to_interval(*md, cur_interval);
+    if (split_timerange and not last_timerange)
+        if (const Timerange* tr = md->get<types::Timerange>())
+            last_timerange = tr->clone();
     const Reftime* rt = md->get<types::Reftime>();
     if (!rt)
         return;
     rt->expand_date_range(timespan);
-    if (split_timerange and not last_timerange)
-        last_timerange = md->get<types::Timerange>()->clone();
 }
 
 void Clusterer::flush_batch()
-- 
2.43.0


From 4e08f69e272c63426003de8b06b485248bcfe281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:49 +0000
Subject: [PATCH 63/70] fix: arki-xargs ignored commands killed by a signal,
 and left temporary files behind after errors

---
 arki/metadata/xargs.cc | 43 ++++++++++++++++++++++++++----------------
 arki/metadata/xargs.h  |  7 ++++++-
 2 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/arki/metadata/xargs.cc b/arki/metadata/xargs.cc
index f033200..a08f880 100644
--- a/arki/metadata/xargs.cc
+++ b/arki/metadata/xargs.cc
@@ -5,6 +5,7 @@
 #include "arki/utils/subprocess.h"
 #include "arki/utils/sys.h"
 #include <cstring>
+#include <sys/wait.h>
 #include <unistd.h>
 
 using namespace std;
@@ -31,7 +32,17 @@ Xargs::Xargs() : metadata::Clusterer(), filename_argument(-1)
     }
 }
 
-Xargs::~Xargs() {}
+Xargs::~Xargs() { discard_batch(); }
+
+void Xargs::discard_batch()
+{
+    stream_to_tempfile.reset();
+    if (!tempfile)
+        return;
+    // Ignore errors here, so we do not hide what really happened
+    ::unlink(tempfile->path().c_str());
+    tempfile.reset();
+}
 
 void Xargs::start_batch(DataFormat new_format)
 {
@@ -55,18 +66,16 @@ void Xargs::flush_batch()
 {
     if (!tempfile || !tempfile->is_open())
         return;
-    int res;
+    std::string error;
 
     try
     {
         // Run process with fname as parameter
-        res = run_child();
+        error = run_child();
     }
     catch (...)
     {
-        // Ignore close exceptions here, so we rethrow what really happened
-        ::close(*tempfile);
-        ::unlink(tempfile->path().c_str());
+        discard_batch();
         throw;
     }
 
@@ -76,19 +85,14 @@ void Xargs::flush_batch()
     tempfile.reset();
     metadata::Clusterer::flush_batch();
 
-    if (res != 0)
-    {
-        stringstream ss;
-        ss << "cannot run " << command[0] << ": process returned exit status "
-           << res;
-        throw std::runtime_error(ss.str());
-    }
+    if (!error.empty())
+        throw std::runtime_error("cannot run " + command[0] + ": " + error);
 }
 
-int Xargs::run_child()
+std::string Xargs::run_child()
 {
     if (count == 0)
-        return 0;
+        return std::string();
 
     subprocess::Popen child({command[0]});
     child.set_stdin(subprocess::Redirect::DEVNULL);
@@ -131,7 +135,14 @@ int Xargs::run_child()
     }
 
     child.fork();
-    return child.wait();
+    child.wait();
+    int raw = child.raw_returncode();
+    if (raw == 0)
+        return std::string();
+    if (WIFEXITED(raw))
+        return "process returned exit status " +
+               std::to_string(WEXITSTATUS(raw));
+    return "process " + child.format_raw_returncode(raw);
 }
 
 static size_t parse_interval(const std::string& str)
diff --git a/arki/metadata/xargs.h b/arki/metadata/xargs.h
index 43e7b2b..57828c8 100644
--- a/arki/metadata/xargs.h
+++ b/arki/metadata/xargs.h
@@ -21,7 +21,12 @@ protected:
     void add_to_batch(std::shared_ptr<Metadata> md) override;
     void flush_batch() override;
 
-    int run_child();
+    /// Run the command on the current batch, returning a description of its
+    /// failure, or an empty string if it succeeded
+    std::string run_child();
+
+    /// Remove the temporary file of the current batch, if there is one
+    void discard_batch();
 
 public:
     /**
-- 
2.43.0


From a1d5f6b5afae4acc98b8c2f59e0d880e4e5c10e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:25 +0000
Subject: [PATCH 64/70] fix: reference time expressions with alternatives
 matched no data in datasets

---
 arki/matcher/utils.cc | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/arki/matcher/utils.cc b/arki/matcher/utils.cc
index d0ed774..e303fd8 100644
--- a/arki/matcher/utils.cc
+++ b/arki/matcher/utils.cc
@@ -1,6 +1,7 @@
 #include "utils.h"
 #include "aliases.h"
 #include "arki/core/binary.h"
+#include "arki/core/time.h"
 #include "arki/metadata.h"
 #include "arki/types.h"
 #include "arki/types/itemset.h"
@@ -193,15 +194,29 @@ std::string OR::toStringValueOnlyExpanded() const
 
 bool OR::intersect_interval(core::Interval& interval) const
 {
+    if (components.empty())
+        return true;
+
+    // Find the smallest interval that includes all the alternatives
+    bool found = false;
+    core::Interval res;
     for (auto i : components)
     {
         const matcher::MatchReftime* rt =
             dynamic_cast<const matcher::MatchReftime*>(i.get());
         assert(rt != nullptr);
-        if (!rt->intersect_interval(interval))
-            return false;
+        core::Interval alternative(interval);
+        if (!rt->intersect_interval(alternative))
+            continue;
+        if (found)
+            res.extend(alternative);
+        else
+            res = alternative;
+        found = true;
     }
-    return true;
+    if (found)
+        interval = res;
+    return found;
 }
 
 std::string OR::toReftimeSQL(const std::string& column) const
-- 
2.43.0


From 1477326255ba293bd9f6f567d7f38a93dc2da74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:25 +0000
Subject: [PATCH 65/70] fix: iseg datasets could not be queried using time
 steps of less than about 90 seconds

---
 arki/matcher/reftime/parser.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/arki/matcher/reftime/parser.cc b/arki/matcher/reftime/parser.cc
index 8d026ac..3c14d2d 100644
--- a/arki/matcher/reftime/parser.cc
+++ b/arki/matcher/reftime/parser.cc
@@ -343,14 +343,23 @@ struct TimeExact : public DTMatch
     {
         string res = "(";
         bool first = true;
+        // SQLite limits the depth of expressions: short steps generate too many
+        // times for a sequence of ORs
+        bool use_in = times.size() > 100;
+        if (use_in)
+            res += "TIME(" + column + ") IN (";
         for (set<int>::const_iterator i = times.begin(); i != times.end(); ++i)
         {
             if (first)
                 first = false;
             else
-                res += " OR ";
-            res += "TIME(" + column + ")==" + tosqlTime(*i);
+                res += use_in ? "," : " OR ";
+            if (!use_in)
+                res += "TIME(" + column + ")==";
+            res += tosqlTime(*i);
         }
+        if (use_in)
+            res += ")";
         return res + ")";
     }
     string toString() const override
-- 
2.43.0


From ff73e1b70a11cf0975cab4523a47d086cbc96ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 66/70] fix: summaries of part of a segment, or of some hours
 of the day, counted data that does not match

---
 arki/dataset/archive.cc        |  3 ++-
 arki/dataset/iseg/reader.cc    |  8 ++++++++
 arki/matcher.cc                | 12 ++++++++++++
 arki/matcher.h                 | 12 ++++++++++++
 arki/matcher/reftime.cc        |  8 ++++++++
 arki/matcher/reftime.h         |  1 +
 arki/matcher/reftime/parser.cc |  5 +++++
 arki/matcher/reftime/parser.h  | 10 ++++++++++
 arki/matcher/utils.cc          | 11 +++++++++++
 arki/matcher/utils.h           |  1 +
 arki/segment/metadata.cc       | 19 +++++++++++++------
 11 files changed, 83 insertions(+), 7 deletions(-)

diff --git a/arki/dataset/archive.cc b/arki/dataset/archive.cc
index c2a861a..dbac44a 100644
--- a/arki/dataset/archive.cc
+++ b/arki/dataset/archive.cc
@@ -334,7 +334,8 @@ void Reader::impl_query_summary(const Matcher& matcher, Summary& summary)
         return;
 
     // Extract date range from matcher
-    if (!interval.begin.is_set() && !interval.end.is_set())
+    if (!interval.begin.is_set() && !interval.end.is_set() &&
+        matcher.match_all(interval))
     {
         // Use archive summary cache
         Summary s;
diff --git a/arki/dataset/iseg/reader.cc b/arki/dataset/iseg/reader.cc
index 0476afe..79c54d7 100644
--- a/arki/dataset/iseg/reader.cc
+++ b/arki/dataset/iseg/reader.cc
@@ -138,6 +138,14 @@ void Reader::impl_query_summary(const Matcher& matcher, Summary& summary)
         return; // If the matcher contains an impossible reftime, return right
                 // away
 
+    // Cached summaries can only be used for whole intervals of time: if the
+    // matcher has further restrictions, query the DB directly
+    if (!matcher.match_all(interval))
+    {
+        summary_from_indices(matcher, summary);
+        return;
+    }
+
     if (!interval.begin.is_set() && !interval.end.is_set())
     {
         // The matcher does not contain reftime, or does not restrict on a
diff --git a/arki/matcher.cc b/arki/matcher.cc
index 1977aa9..34baa0d 100644
--- a/arki/matcher.cc
+++ b/arki/matcher.cc
@@ -147,6 +147,18 @@ bool Matcher::intersect_interval(core::Interval& interval) const
     return true;
 }
 
+bool Matcher::match_all(const core::Interval& interval) const
+{
+    if (!m_impl)
+        return true;
+
+    auto reftime = m_impl->get(TYPE_REFTIME);
+    if (!reftime)
+        return true;
+
+    return reftime->match_all(interval);
+}
+
 Matcher Matcher::merge(const Matcher& m) const
 {
     if (m_impl && m.m_impl)
diff --git a/arki/matcher.h b/arki/matcher.h
index 210a515..c03d9de 100644
--- a/arki/matcher.h
+++ b/arki/matcher.h
@@ -87,6 +87,18 @@ public:
      */
     bool intersect_interval(core::Interval& interval) const;
 
+    /**
+     * Check if the reference time part of this matcher selects everything in
+     * the given interval.
+     *
+     * If it does not, summaries that span the interval cannot be used to
+     * compute an exact result, since their rows can only be selected as a
+     * whole.
+     *
+     * @returns false if it does not, or if it is not possible to tell
+     */
+    bool match_all(const core::Interval& interval) const;
+
     /// Format back into a string that can be parsed again
     std::string toString() const;
 
diff --git a/arki/matcher/reftime.cc b/arki/matcher/reftime.cc
index 9014df1..77d9932 100644
--- a/arki/matcher/reftime.cc
+++ b/arki/matcher/reftime.cc
@@ -78,6 +78,14 @@ bool MatchReftime::match_interval(const core::Interval& o) const
     return true;
 }
 
+bool MatchReftime::match_all(const core::Interval& o) const
+{
+    for (const auto& i : tests)
+        if (!i->match_all(o))
+            return false;
+    return true;
+}
+
 std::string MatchReftime::sql(const std::string& column) const
 {
     bool first = true;
diff --git a/arki/matcher/reftime.h b/arki/matcher/reftime.h
index e384a58..1b72f8a 100644
--- a/arki/matcher/reftime.h
+++ b/arki/matcher/reftime.h
@@ -56,6 +56,7 @@ struct MatchReftime : public matcher::Implementation
     bool match_buffer(types::Code code, const uint8_t* data,
                       unsigned size) const override;
     bool match_interval(const core::Interval& o) const;
+    bool match_all(const core::Interval& o) const;
     std::string toString() const override;
     std::string sql(const std::string& column) const;
 
diff --git a/arki/matcher/reftime/parser.cc b/arki/matcher/reftime/parser.cc
index 3c14d2d..1c8e165 100644
--- a/arki/matcher/reftime/parser.cc
+++ b/arki/matcher/reftime/parser.cc
@@ -84,6 +84,11 @@ struct DateInterval : public DTMatch
         return this->interval.intersects(interval);
     }
 
+    bool match_all(const core::Interval& interval) const override
+    {
+        return this->interval.contains(interval);
+    }
+
     bool intersect_interval(core::Interval& interval) const override
     {
         return interval.intersect(this->interval);
diff --git a/arki/matcher/reftime/parser.h b/arki/matcher/reftime/parser.h
index 09f8b33..eaae634 100644
--- a/arki/matcher/reftime/parser.h
+++ b/arki/matcher/reftime/parser.h
@@ -20,6 +20,16 @@ public:
     virtual std::string sql(const std::string& column) const = 0;
     virtual std::string toString() const                     = 0;
 
+    /**
+     * Return true if all that is in the interval is matched.
+     *
+     * False means that it is not possible to tell.
+     */
+    virtual bool match_all(const core::Interval& interval) const
+    {
+        return false;
+    }
+
     /**
      * Time (in seconds since midnight) of this expression, used as a reference
      * when building derived times. For example, an expression of
diff --git a/arki/matcher/utils.cc b/arki/matcher/utils.cc
index e303fd8..21ebcb7 100644
--- a/arki/matcher/utils.cc
+++ b/arki/matcher/utils.cc
@@ -159,6 +159,17 @@ bool OR::match_interval(const core::Interval& t) const
     return false;
 }
 
+bool OR::match_all(const core::Interval& t) const
+{
+    if (components.empty())
+        return true;
+
+    for (auto i : components)
+        if (static_pointer_cast<matcher::MatchReftime>(i)->match_all(t))
+            return true;
+    return false;
+}
+
 std::string OR::toString() const
 {
     if (components.empty())
diff --git a/arki/matcher/utils.h b/arki/matcher/utils.h
index 6cb004a..9433fba 100644
--- a/arki/matcher/utils.h
+++ b/arki/matcher/utils.h
@@ -122,6 +122,7 @@ public:
     bool match_buffer(types::Code code, const uint8_t* data,
                       unsigned size) const override;
     bool match_interval(const core::Interval& interval) const;
+    bool match_all(const core::Interval& interval) const;
 
     // Serialise as "type:original definition"
     std::string toString() const override;
diff --git a/arki/segment/metadata.cc b/arki/segment/metadata.cc
index 9478b30..6a7f20b 100644
--- a/arki/segment/metadata.cc
+++ b/arki/segment/metadata.cc
@@ -357,13 +357,20 @@ void Reader::query_summary(const Matcher& matcher, Summary& summary)
     {
         Summary s;
         s.read(summary_file);
-        s.filter(matcher, summary);
-    }
-    else
-    {
-        // Resummarize from metadata
-        index.query_summary(matcher, summary);
+        if (s.empty())
+            return;
+        // Rows of a summary can only be selected as a whole: if only part of
+        // the segment can match, they cannot be used
+        if (matcher.match_all(s.get_reference_time()) ||
+            !std::filesystem::exists(m_segment->abspath_metadata()))
+        {
+            s.filter(matcher, summary);
+            return;
+        }
     }
+
+    // Resummarize from metadata
+    index.query_summary(matcher, summary);
 }
 
 /*
-- 
2.43.0


From 009771687a1136497c73868b9ef65ccd8af8dd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 67/70] fix: unarchiving a segment archived as tar, zip or gz
 failed halfway

---
 arki/dataset/segmented.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arki/dataset/segmented.cc b/arki/dataset/segmented.cc
index ecce6ea..0503d7c 100644
--- a/arki/dataset/segmented.cc
+++ b/arki/dataset/segmented.cc
@@ -301,6 +301,8 @@ void CheckerSegment::unarchive()
     auto arcrelpath          = "last" / segment->relpath();
     metadata::Collection mdc = archives()->release_segment(
         arcrelpath, dataset().segment_session, segment->relpath());
+    // The segment did not exist until now: detect again how it stores its data
+    segment_checker = segment->checker(lock);
     index(std::move(mdc));
 }
 
-- 
2.43.0


From 6ce01126baac085744c955c9045e5510f0fd37a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 68/70] fix: iseg segments: detect that filling a newly created
 index was interrupted

---
 arki/segment/iseg.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/arki/segment/iseg.cc b/arki/segment/iseg.cc
index 4197f44..6ba257d 100644
--- a/arki/segment/iseg.cc
+++ b/arki/segment/iseg.cc
@@ -431,8 +431,15 @@ void Checker::update_data() { data = Data::create(m_segment); }
 CIndex& Checker::index()
 {
     if (!m_index)
+    {
+        // Until it gets filled, a newly created index is the same as the index
+        // of a segment whose data has all been deleted: if we are interrupted,
+        // the segment needs to be rescanned
+        if (!std::filesystem::exists(segment().abspath_iseg_index()))
+            set_rescan_marker(segment());
         m_index = std::make_shared<CIndex>(
             std::static_pointer_cast<const Segment>(m_segment), lock);
+    }
     return *m_index;
 }
 
-- 
2.43.0


From 92fa7fe86e1cc965dadfb1bb51183d7a99d02e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:44 +0000
Subject: [PATCH 69/70] fix: simple datasets: a legacy index.sqlite manifest
 was read in the wrong order and with shorter intervals

---
 arki/dataset/simple/manifest.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/arki/dataset/simple/manifest.cc b/arki/dataset/simple/manifest.cc
index af07b68..5f1f6f6 100644
--- a/arki/dataset/simple/manifest.cc
+++ b/arki/dataset/simple/manifest.cc
@@ -109,20 +109,29 @@ std::vector<SegmentInfo> read_sqlite(const std::filesystem::path& path)
 
     std::vector<SegmentInfo> res;
 
-    auto query = "SELECT file, mtime, start_time, end_time FROM files ORDER BY "
-                 "start_time";
     Query q("sel_archive", m_db);
-    q.compile(query);
+    q.compile("SELECT file, mtime, start_time, end_time FROM files");
     while (q.step())
     {
         Interval interval;
         std::filesystem::path relpath = q.fetchString(0);
         auto mtime                    = q.fetch<time_t>(1);
         interval.begin.set_sql(q.fetchString(2));
+        // Times are saved with extremes included, as in MANIFEST
         interval.end.set_sql(q.fetchString(3));
+        if (interval.end != core::Time())
+        {
+            interval.end.se += 1;
+            interval.end.normalise();
+        }
         res.emplace_back(SegmentInfo{relpath, mtime, interval});
     }
 
+    // Segments are looked up by path
+    std::sort(res.begin(), res.end(), [](const auto& a, const auto& b) {
+        return a.relpath < b.relpath;
+    });
+
     return res;
 }
 
-- 
2.43.0


From c3f6907dc07b4b2d1ea9c9bf367d6e83e0182293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:01 +0000
Subject: [PATCH 70/70] fix: stop_filter: do not leave the filter running when
 its output cannot be passed on

---
 arki/stream/base.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/arki/stream/base.cc b/arki/stream/base.cc
index fdd1fea..c8bc16e 100644
--- a/arki/stream/base.cc
+++ b/arki/stream/base.cc
@@ -44,7 +44,16 @@ std::unique_ptr<FilterProcess> BaseStreamOutput::stop_filter()
     if (filter_process->cmd.get_stdin() != -1)
         filter_process->cmd.close_stdin();
 
-    flush_filter_output();
+    try
+    {
+        flush_filter_output();
+    }
+    catch (...)
+    {
+        // The output is lost: do not leave the filter running
+        abort_filter();
+        throw;
+    }
 
     std::unique_ptr<FilterProcess> proc = std::move(filter_process);
     filter_sender.reset();
-- 
2.43.0

