From dde8cdf1375420e9b0b236286e2aeb38b9a47449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:28 +0000
Subject: [PATCH 01/54] fix: report product type, category and code bytes as
 unsigned to filters and servers

---
 src/packfpu.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/packfpu.c b/src/packfpu.c
index 2dcd37c..7f0842e 100644
--- a/src/packfpu.c
+++ b/src/packfpu.c
@@ -66,10 +66,10 @@ int nbsfp_unpack_fpath(struct packet_info_st *packetinfo){
    */
 
   packetinfo->seq_number = unpack_uint32(p, 0);
-  packetinfo->psh_product_type = p[4];
-  packetinfo->psh_product_category = p[5];
-  packetinfo->psh_product_code = p[6];
-  packetinfo->np_channel_index = p[7];
+  packetinfo->psh_product_type = (unsigned char)p[4];
+  packetinfo->psh_product_category = (unsigned char)p[5];
+  packetinfo->psh_product_code = (unsigned char)p[6];
+  packetinfo->np_channel_index = (unsigned char)p[7];
 
   p += 8;
   packetinfo->fname = p;
-- 
2.43.0


From 3888356132574564d85c31678c49e810c414494b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:58 +0000
Subject: [PATCH 02/54] fix: ignore a late END frame of a product that is not
 the active one

---
 src/framep.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/framep.c b/src/framep.c
index d768fa8..e4fffba 100644
--- a/src/framep.c
+++ b/src/framep.c
@@ -489,8 +489,14 @@ static int e_end_activepce(struct sbn_frame *sbnf){
   assert(status != -1);
 
   if(status == 1){
+    /*
+     * A late or duplicated frame of another product. The product that is
+     * active now, if any, must be left alone.
+     */
     log_verbose(3, "END: %u not active on %d.", sbnf->pdh.product_seq_number,
 		sbnf->np_channel_index);
+
+    return(0);
   }else{
     if(status == 0)
 	update_stats_products_completed();
-- 
2.43.0


From 35ecf5fb298ac99581b83a4ee2b85a4b777de8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:51 +0000
Subject: [PATCH 03/54] fix: normalize the deadline of timed queue reads

With a timeout that is not a multiple of 1000 ms the nanoseconds could
reach 1e9; pthread_cond_timedwait() then fails with EINVAL at once and
the reading thread spins (and logs an error each time).
---
 src/libqdb/qdb.c | 4 ++++
 src/pctldb.c     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/libqdb/qdb.c b/src/libqdb/qdb.c
index 87690b5..7f3a731 100644
--- a/src/libqdb/qdb.c
+++ b/src/libqdb/qdb.c
@@ -552,4 +552,8 @@ static void queue_set_timeout(unsigned int timeout_ms,
 
   timeout->tv_sec += (timeout_ms/1000);
   timeout->tv_nsec += (timeout_ms % 1000)*1000000;
+  if(timeout->tv_nsec >= 1000000000){
+    ++timeout->tv_sec;
+    timeout->tv_nsec -= 1000000000;
+  }
 }
diff --git a/src/pctldb.c b/src/pctldb.c
index c3da7e1..c13fffb 100644
--- a/src/pctldb.c
+++ b/src/pctldb.c
@@ -466,4 +466,8 @@ static void pctldb_set_timeout(unsigned int timeout_ms,
 
   timeout->tv_sec += (timeout_ms/1000);
   timeout->tv_nsec += (timeout_ms % 1000)*1000000;
+  if(timeout->tv_nsec >= 1000000000){
+    ++timeout->tv_sec;
+    timeout->tv_nsec -= 1000000000;
+  }
 }
-- 
2.43.0


From 5c694d12f3545fb359b8fd83e5529d9db9afb606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:51 +0000
Subject: [PATCH 04/54] fix: discard a duplicate from another master that was
 queued before the first copy was saved

---
 src/framep.c          | 1 +
 src/nbsp.c            | 9 +++++++++
 src/pctl.h            | 1 +
 src/slavenbs/framep.c | 1 +
 4 files changed, 12 insertions(+)

diff --git a/src/framep.c b/src/framep.c
index e4fffba..c67ea96 100644
--- a/src/framep.c
+++ b/src/framep.c
@@ -311,6 +311,7 @@ static int start_activepce(struct sbn_frame *sbnf){
   pce->save_format = g.spoolsavefmt;
   pce->saveunz_flag = 0;	/* determined below */
   pce->rtxdb_flag = 0;		/* managed in the processor, not here */
+  pce->f_reject_duplicate = 0;
 
   /*
    * The pce->mf is opened by open_pctl_activepce() so we do not
diff --git a/src/nbsp.c b/src/nbsp.c
index 057c86e..6fd4dba 100644
--- a/src/nbsp.c
+++ b/src/nbsp.c
@@ -422,6 +422,15 @@ static int process_pctl_element(struct pctl_element_st *pce){
 
   log_verbose(3, "Processing %u. ", seqnumber);
 
+  /*
+   * A copy from another master may have been queued before
+   * this one but saved after the reader thread checked for duplicates.
+   */
+  if((pce->f_reject_duplicate == 1) && (file_exists(pce->fpath) == 0)){
+    log_info("Discarding duplicate: %s.", pce->fpath);
+    return(0);
+  }
+
   if(pce_spool_product(pce) != 0){
     log_errx("pce_spool_product() returned an error processing %u.",
 	     seqnumber);
diff --git a/src/pctl.h b/src/pctl.h
index 0b7af1e..e251bdd 100644
--- a/src/pctl.h
+++ b/src/pctl.h
@@ -32,6 +32,7 @@ struct pctl_element_st {
   int save_format;	    /* how to treat the ccb hdr of the product file */
   int saveunz_flag;      /* 1 if the compresed files should be uncompressed */
   int rtxdb_flag;	    /* whether it should be put in the rtx db */
+  int f_reject_duplicate;   /* discard it if it is already in the spool */
   struct memfile_st *mf;    /* memory file of the frames */
   char ctrlhdr[MAX_CTRLHDR_SIZE];         /* our copy of sbn_frame->ctrlhdr */
   int ctrlhdr_size;
diff --git a/src/slavenbs/framep.c b/src/slavenbs/framep.c
index eef245e..9845f40 100644
--- a/src/slavenbs/framep.c
+++ b/src/slavenbs/framep.c
@@ -120,6 +120,7 @@ static int estart_activepce(struct nbs1_packet_st *nbs){
   pce->save_format = g.spoolsavefmt;
   pce->saveunz_flag = 0;	/* determined below */
   pce->rtxdb_flag = 0;		/* managed in the processor, not here */
+  pce->f_reject_duplicate = g.slave_reject_duplicates;
 
   /*
    * The pce->mf is opened by open_pctl_activepce() so we do not
-- 
2.43.0


From d16d0b59c830057184f482e05174f615beb70ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:05 +0000
Subject: [PATCH 05/54] fix: disconnect an unidentified client when the emwin
 protocol is not being served

---
 src/serverm.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/serverm.c b/src/serverm.c
index 6d01453..d700673 100644
--- a/src/serverm.c
+++ b/src/serverm.c
@@ -628,6 +628,13 @@ static void process_unidentified_connections(void){
 	log_err2("Could not set protocol for", nameorip);
 	poll_kill_client_connection(g.ct, i);
 	numentries = conn_table_get_numentries(g.ct);
+      }else if(match_client_protocol(g.ct, i) != 0){
+	/*
+	 * There is nothing to serve to an emwin client.
+	 */
+	log_errx("Client %s protocol is not being served.", nameorip);
+	poll_kill_client_connection(g.ct, i);
+	numentries = conn_table_get_numentries(g.ct);
       }
     }
   }
-- 
2.43.0


From e9ae738d29a2968b9bef1da2a72c07d6df355ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:05 +0000
Subject: [PATCH 06/54] fix: keep the memory based queues of the network
 clients in a list, not in an in-memory db whose cache they exhaust

---
 src/libqdb/qdb.c | 149 +++++++++++++++++++++++++++++++++--------------
 src/libqdb/qdb.h |  16 ++++-
 2 files changed, 118 insertions(+), 47 deletions(-)

diff --git a/src/libqdb/qdb.c b/src/libqdb/qdb.c
index 7f3a731..54582b4 100644
--- a/src/libqdb/qdb.c
+++ b/src/libqdb/qdb.c
@@ -15,6 +15,9 @@
 #define QDB_FLAGS	(DB_CREATE | DB_THREAD)
 
 static int qdb_stat(struct nbspq_st *nbspq);
+static int qmem_snd(struct nbspq_st *nbspq, void *p, uint32_t size);
+static void qmem_rcv(struct nbspq_st *nbspq, void *p);
+static void qmem_clear(struct nbspq_st *nbspq);
 static int queue_soft_limit(int n, int softlimit);
 static int queue_hard_limit(int n, int hardlimit);
 static void queue_set_timeout(unsigned int timeout_ms,
@@ -293,43 +296,38 @@ int qdb_open(struct nbspq_st **nbspq, struct qdb_param_st *qdbparam,
 	     int *dberror){
 
   DB *dbp = NULL;
-  DB_MPOOLFILE *mpf = NULL;
   uint32_t dbflags = QDB_FLAGS;
-  uint32_t mb = (1024 * 1024) * qdbparam->cache_mb;
   struct nbspq_st *q = NULL;
   int f_memory_based = 0;
-  int status;
+  int status = 0;
 
-  status = db_create(&dbp, qdbparam->dbenv, 0);
-  if(status == 0)
-    status = dbp->set_re_len(dbp, qdbparam->reclen);
+  /*
+   * A memory based queue is not a db. The pages of an in-memory db are not
+   * reclaimed (neither the extent size nor the page size apply) unless the
+   * queue becomes empty, and so a queue that is constantly
+   * being read but never completely drained would eventually exhaust
+   * the cache; then every qdb_snd() waits several seconds inside the db
+   * library, and fails.
+   */
+  if((qdbparam->dbname == NULL) || (qdbparam->dbname[0] == '\0'))
+    f_memory_based = 1;
 
-  if(status == 0){
-    if((qdbparam->dbname != NULL) && (qdbparam->dbname[0] != '\0')){
-      /*
-       * We can set the pagesize also, but the berkely db chooses one according
-       * to the operating system parameters if we dont'.
-       */
+  if(f_memory_based == 0){
+    status = db_create(&dbp, qdbparam->dbenv, 0);
+    if(status == 0)
+      status = dbp->set_re_len(dbp, qdbparam->reclen);
+
+    /*
+     * We can set the pagesize also, but the berkely db chooses one according
+     * to the operating system parameters if we dont'.
+     */
+    if(status == 0)
       status = dbp->set_q_extentsize(dbp, qdbparam->extent_size);
-    }else{
-      /*
-       * An in-memory db. Temporary overflow pages kept in memory and,
-       * if dbenv == NULL, set the cache size explicitly. There is meaning
-       * of page size and extent size in this case, so we deal with the
-       * issue of reclaiming the unused memory from the cache explicitly
-       * in qdb_rcv() below.
-       */
-      f_memory_based = 1;
-      mpf = dbp->get_mpf(dbp);
-      status = mpf->set_flags(mpf, DB_MPOOL_NOFILE, 1);
-      if((qdbparam->dbenv == NULL) && (status == 0))	
-	status = dbp->set_cachesize(dbp, 0, mb, 1);
-    }
-  }
 
-  if(status == 0)
-    status = dbp->open(dbp, NULL, qdbparam->dbname, NULL, DB_QUEUE, dbflags,
-		       qdbparam->mode);
+    if(status == 0)
+      status = dbp->open(dbp, NULL, qdbparam->dbname, NULL, DB_QUEUE, dbflags,
+			 qdbparam->mode);
+  }
 
   if(status == 0){
     q = malloc(sizeof(struct nbspq_st));
@@ -339,11 +337,15 @@ int qdb_open(struct nbspq_st **nbspq, struct qdb_param_st *qdbparam,
 
   if(status == 0){
     q->dbp = dbp;
+    q->first = NULL;
+    q->last = NULL;
+    q->reclen = qdbparam->reclen;
     q->n = 0;
     q->nmax = 0xffffffff;
     q->f_memory_based = f_memory_based;
     q->f_qdb_status = QDB_FSTATUS_OK;
-    status = qdb_stat(q);
+    if(f_memory_based == 0)
+      status = qdb_stat(q);
   }
 
   if(status == 0){
@@ -383,6 +385,8 @@ int qdb_close(struct nbspq_st *nbspq, int *dberror){
   if(dbp != NULL)
     status = dbp->close(dbp, 0);
 
+  qmem_clear(nbspq);
+
   if(status != 0){
     *dberror = status;
     status = -1;
@@ -412,7 +416,12 @@ int qdb_snd(struct nbspq_st *nbspq, void *p, uint32_t size, int *dberror){
   data.data = p;
   data.size = size;
 
-  if((status = dbp->put(dbp, NULL, &key, &data, DB_APPEND)) == 0)
+  if(nbspq->f_memory_based)
+    status = qmem_snd(nbspq, p, size);
+  else
+    status = dbp->put(dbp, NULL, &key, &data, DB_APPEND);
+
+  if(status == 0)
     ++nbspq->n;
   else{
     *dberror = status;
@@ -438,7 +447,9 @@ int qdb_rcv(struct nbspq_st *nbspq, void **p, uint32_t *size, int *dberror){
   memset(&key, 0 , sizeof(DBT));
   memset(&data, 0 , sizeof(DBT));
 
-  if((status = dbp->get_re_len(dbp, &reclen)) != 0){
+  if(nbspq->f_memory_based)
+    reclen = nbspq->reclen;
+  else if((status = dbp->get_re_len(dbp, &reclen)) != 0){
     *dberror = status;
     return(-1);
   }
@@ -465,7 +476,11 @@ int qdb_rcv(struct nbspq_st *nbspq, void **p, uint32_t *size, int *dberror){
   data.ulen = reclen;
   data.flags = DB_DBT_USERMEM;
 
-  status = dbp->get(dbp, NULL, &key, &data, DB_CONSUME);
+  if(nbspq->f_memory_based)
+    qmem_rcv(nbspq, p_copy);
+  else
+    status = dbp->get(dbp, NULL, &key, &data, DB_CONSUME);
+
   if(status != 0){
     *dberror = status;
     status = -1;
@@ -477,22 +492,66 @@ int qdb_rcv(struct nbspq_st *nbspq, void **p, uint32_t *size, int *dberror){
 
     *size = reclen;
     --nbspq->n;
-
-    /*
-     * The call to truncate() below is added to handle the case of in-memory
-     * queues, in which case the page/extent size mechanism for reclaiming
-     * unused space does not operate (both calls return errors when the
-     * data base is configured as in-memory db). If this is not done here,
-     * or somewhere, then the cache is eventually exhasusted and the
-     * the next calls to qdb_send return an error (memory cannot be allocated.)
-     */
-    if(nbspq->f_memory_based && (nbspq->n == 0))
-      status = dbp->truncate(dbp, NULL, NULL, 0);
   }
 
   return(status);
 }
 
+/*
+ * The memory based queues. As in the db, the records have a fixed length
+ * and the callers hold the mutex and keep the count (n).
+ */
+static int qmem_snd(struct nbspq_st *nbspq, void *p, uint32_t size){
+
+  struct nbspq_record_st *r;
+
+  if(size > nbspq->reclen)
+    return(EINVAL);
+
+  r = malloc(sizeof(struct nbspq_record_st) + nbspq->reclen);
+  if(r == NULL)
+    return(ENOMEM);
+
+  r->next = NULL;
+  memcpy(r->data, p, size);
+  memset(r->data + size, 0, nbspq->reclen - size);
+
+  if(nbspq->last != NULL)
+    nbspq->last->next = r;
+  else
+    nbspq->first = r;
+
+  nbspq->last = r;
+
+  return(0);
+}
+
+static void qmem_rcv(struct nbspq_st *nbspq, void *p){
+
+  struct nbspq_record_st *r = nbspq->first;
+
+  assert(r != NULL);	/* nbspqt_rcv() waits until n != 0 */
+
+  memcpy(p, r->data, nbspq->reclen);
+  nbspq->first = r->next;
+  if(nbspq->first == NULL)
+    nbspq->last = NULL;
+
+  free(r);
+}
+
+static void qmem_clear(struct nbspq_st *nbspq){
+
+  struct nbspq_record_st *r;
+
+  while((r = nbspq->first) != NULL){
+    nbspq->first = r->next;
+    free(r);
+  }
+
+  nbspq->last = NULL;
+}
+
 static int qdb_stat(struct nbspq_st *nbspq){
 
   int status;
diff --git a/src/libqdb/qdb.h b/src/libqdb/qdb.h
index 81fc23b..d05636a 100644
--- a/src/libqdb/qdb.h
+++ b/src/libqdb/qdb.h
@@ -18,10 +18,22 @@
 #define QDB_FSTATUS_DBERROR	0x0004
 
 /*
- * One channel
+ * A record of a memory based queue
+ */
+struct nbspq_record_st {
+  struct nbspq_record_st *next;
+  unsigned char data[];		/* reclen bytes */
+};
+
+/*
+ * One channel. The memory based queues are a list of records instead of
+ * a db (dbp is NULL).
  */
 struct nbspq_st {
   DB *dbp;
+  struct nbspq_record_st *first;	/* memory based queues only */
+  struct nbspq_record_st *last;
+  uint32_t reclen;
   uint32_t n;
   uint32_t nmax;	/* from db: 0xffffffff */
   pthread_cond_t  cond;
@@ -55,7 +67,7 @@ struct qdb_param_st {
   int mode;
   uint32_t extent_size;
   uint32_t reclen;
-  uint32_t cache_mb;	/* used only if dbenv == NULL, ignored otherwise */
+  uint32_t cache_mb;	/* unused (the memory based queues are not dbs) */
 };
 
 /*
-- 
2.43.0


From 472bb84494de02bcaf620334866e3fe8830b9a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:54 +0000
Subject: [PATCH 07/54] fix: replace the saved spool record atomically so that
 a crash or a full disk does not prevent the next start

---
 src/spooldb.c | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/spooldb.c b/src/spooldb.c
index d3fc056..3b661d8 100644
--- a/src/spooldb.c
+++ b/src/spooldb.c
@@ -6,6 +6,7 @@
  * $Id$
  */
 #include <assert.h>
+#include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
 #include <unistd.h>
@@ -74,13 +75,28 @@ int spooldb_insert(struct spooldb_st *spooldb, char *key){
 
 int spooldb_write(struct spooldb_st *spooldb, char *filename, mode_t mode){
 
+  /*
+   * The data is written to a temporary file which then replaces the
+   * original, so that an interruption or an error never leaves a
+   * partial file, which the next start would reject.
+   */
   int status = 0;
   int fd = -1;
   ssize_t n, size;
+  char *tmpname;
 
-  fd = open(filename, O_WRONLY | O_TRUNC | O_CREAT, mode);
-  if(fd == -1)
+  size = strlen(filename) + 5;		/* ".tmp" + '\0' */
+  tmpname = malloc(size);
+  if(tmpname == NULL)
+    return(-1);
+
+  snprintf(tmpname, size, "%s.tmp", filename);
+
+  fd = open(tmpname, O_WRONLY | O_TRUNC | O_CREAT, mode);
+  if(fd == -1){
+    free(tmpname);
     return(-1);
+  }
 
   size = sizeof(struct spooldb_st);
   n = write(fd, spooldb, size);
@@ -97,8 +113,16 @@ int spooldb_write(struct spooldb_st *spooldb, char *filename, mode_t mode){
 
  End:
 
-  if(fd != -1)
-    close(fd);
+  if(close(fd) != 0)
+    status = -1;
+
+  if(status == 0)
+    status = rename(tmpname, filename);
+
+  if(status != 0)
+    (void)unlink(tmpname);
+
+  free(tmpname);
 
   return(status);
 }
-- 
2.43.0


From 95d1974d7703d1b6993b57372331963688258928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:20 +0000
Subject: [PATCH 08/54] fix: close the product file when a client thread is
 cancelled while sending it

---
 src/serverc.c | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/serverc.c b/src/serverc.c
index 9071a87..06b8dcf 100644
--- a/src/serverc.c
+++ b/src/serverc.c
@@ -43,8 +43,10 @@ static int send_nbs2_client(struct conn_element_st *ce,
 
 static int emwin_retransmit_packet(struct conn_element_st *ce,
 				   struct emwin_packet_st *ep);
+static void cleanup_emwin_packet(void *arg);
 static int nbs_retransmit_packet(struct conn_element_st *ce,
 				 struct nbs1_packet_st *nbs);
+static void cleanup_nbs_packet(void *arg);
 
 static int send_client(struct conn_element_st *ce,
 		       void *data, uint32_t data_size);
@@ -299,6 +301,9 @@ static int send_emwin_client(struct conn_element_st *ce,
   if(status != 0)
     return(status);
 
+  /* The thread can be cancelled while reading the file or writing */
+  pthread_cleanup_push(cleanup_emwin_packet, &ep);
+
   for(i = 1; i <= ep.parts_total; ++i){
     status = build_emwin_packet(&ep);
     if(status == -1)
@@ -313,11 +318,21 @@ static int send_emwin_client(struct conn_element_st *ce,
       break;
   }
 
-  free_emwin_packet_st(&ep);
+  pthread_cleanup_pop(1);
 
   return(status);
 }
 
+static void cleanup_emwin_packet(void *arg){
+
+  int state;
+
+  /* close() is a cancellation point */
+  (void)pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &state);
+  free_emwin_packet_st((struct emwin_packet_st*)arg);
+  (void)pthread_setcancelstate(state, NULL);
+}
+
 static int emwin_retransmit_packet(struct conn_element_st *ce,
 				   struct emwin_packet_st *ep){
   int fd;
@@ -410,6 +425,9 @@ static int send_nbs1_client(struct conn_element_st *ce,
     return(status);
   }
 
+  /* The thread can be cancelled while reading the file or writing */
+  pthread_cleanup_push(cleanup_nbs_packet, &nbs);
+
   for(i = 1; i <= nbs.num_blocks; ++i){
     status = build_nbs_packet(&nbs);
     if(status == -1)
@@ -428,11 +446,21 @@ static int send_nbs1_client(struct conn_element_st *ce,
       break;
   }
 
-  free_nbs_packet_st(&nbs);
+  pthread_cleanup_pop(1);
 
   return(status);
 }
 
+static void cleanup_nbs_packet(void *arg){
+
+  int state;
+
+  /* close() is a cancellation point */
+  (void)pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &state);
+  free_nbs_packet_st((struct nbs1_packet_st*)arg);
+  (void)pthread_setcancelstate(state, NULL);
+}
+
 static int nbs_retransmit_packet(struct conn_element_st *ce,
 				 struct nbs1_packet_st *nbs){
   int fd;
-- 
2.43.0


From b851a8b6835ab11981606777a671accc84281288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:20 +0000
Subject: [PATCH 09/54] fix: close the old descriptor and ignore its events
 when a client reconnects; free the client name and address

---
 src/libconnth/poll.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/libconnth/poll.c b/src/libconnth/poll.c
index ff28c14..e960eb7 100644
--- a/src/libconnth/poll.c
+++ b/src/libconnth/poll.c
@@ -228,6 +228,7 @@ static int poll_add_connection_net(struct conn_table_st *ct, int sindex,
      * A client has reconnected and the (previously closed) connection
      * has been restored.
      */
+    free(client_ip);
     return(0);
   }else if(status == 1){
     /*
@@ -271,6 +272,10 @@ static int poll_add_connection_net(struct conn_table_st *ct, int sindex,
    * The limit is disabled if it was initialized to a negative value.
    */
   if((ct->nclientsmax >= 0) && (ct->nclients == ct->nclientsmax)){
+    if(client_name != NULL)
+      free(client_name);
+
+    free(client_ip);
     close(client_fd);
     return(-3);
   }
@@ -394,8 +399,17 @@ static int poll_restore_connection(struct conn_table_st *ct,
    */
   if(conn_element_set_connection_status(&ct->ce[i], client_fd) != 0)
     return(1);
-  
+
+  /*
+   * If the application has not closed the old descriptor yet it must be done
+   * here, and the events that were reported for it, if any, do not apply
+   * to the new one.
+   */
+  if(ct->pfd[i].fd != -1)
+    (void)close(ct->pfd[i].fd);
+
   ct->pfd[i].fd = client_fd;
+  ct->pfd[i].revents = 0;
 
   return(0);
 }
-- 
2.43.0


From b1317fc3b54d8a9ef0af09f2492e122f45509e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:02 +0000
Subject: [PATCH 10/54] fix: a stray frame with sequence number 0 must not
 match an idle channel

---
 src/pctl.c | 34 ++++++++++++++++++++++++++++++----
 src/pctl.h |  1 +
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/pctl.c b/src/pctl.c
index ada77c0..0ec5dc0 100644
--- a/src/pctl.c
+++ b/src/pctl.c
@@ -61,6 +61,7 @@ static int pctl_init(struct pctl_st *pctl, int numchannels,
 
   pctl->pctldb = NULL;
   pctl->activepce = NULL;
+  pctl->f_active = NULL;
   pctl->outputmf = NULL;
   pctl->pce = NULL;
   pctl->status.current = 0;
@@ -78,6 +79,13 @@ static int pctl_init(struct pctl_st *pctl, int numchannels,
   }
   pctl->num_activechannels = numchannels;
 
+  pctl->f_active = calloc(numchannels, sizeof(int));
+  if(pctl->f_active == NULL){
+    *dberror = errno;
+    status = -1;
+    goto end;
+  }
+
   pctl->outputmf = create_memfile(param->memfile_minsize);
   if(pctl->outputmf == NULL){
     *dberror = errno;
@@ -101,6 +109,9 @@ static int pctl_init(struct pctl_st *pctl, int numchannels,
     if(pctl->activepce != NULL)
       destroy_pce_array(pctl->activepce, pctl->num_activechannels);
 
+    if(pctl->f_active != NULL)
+      free(pctl->f_active);
+
     if(pctl->outputmf != NULL)      
       close_memfile(pctl->outputmf);
 
@@ -133,6 +144,11 @@ void epctl_close(struct pctl_st *pctl){
     destroy_pce_array(pctl->activepce, pctl->num_activechannels);
     pctl->activepce = NULL;
   }
+
+  if(pctl->f_active != NULL){
+    free(pctl->f_active);
+    pctl->f_active = NULL;
+  }
   
   if(pctl->outputmf != NULL){
     destroy_memfile(pctl->outputmf);
@@ -285,11 +301,17 @@ struct pctl_element_st *open_pctl_activepce(struct pctl_st *pctl,
 
   /*
    * Returning NULL lets the caller know that there is an unfinished
-   * product in the active pce.
+   * product in the active pce. (The sequence number does not tell whether
+   * there is one since 0 is a valid number.)
    */
+  if(pctl->f_active[channel_index] != 0)
+    return(NULL);
+
   if(open_pce(pctl->activepce[channel_index]) != 0)
     return(NULL);
 
+  pctl->f_active[channel_index] = 1;
+
   return(pctl->activepce[channel_index]);
 }
 
@@ -300,6 +322,7 @@ void close_pctl_activepce(struct pctl_st *pctl, int channel_index){
     return;
 
   close_pce(pctl->activepce[channel_index]);
+  pctl->f_active[channel_index] = 0;
 }
 
 struct pctl_element_st *get_pctl_activepce(struct pctl_st *pctl,
@@ -313,7 +336,8 @@ struct pctl_element_st *get_pctl_activepce(struct pctl_st *pctl,
   if((channel_index < 0) || (channel_index >= pctl->num_activechannels))
     return(NULL);
 
-  if((pctl->activepce[i])->seq_number != seqnumber)
+  if((pctl->f_active[i] == 0) ||
+     ((pctl->activepce[i])->seq_number != seqnumber))
     return(NULL);
 
   return(pctl->activepce[i]);
@@ -332,7 +356,8 @@ int update_activepce_framecounter(struct pctl_st *pctl,
     return(-1);
 
   i = channel_index;
-  if((pctl->activepce[i])->seq_number != seqnumber)
+  if((pctl->f_active[i] == 0) ||
+     ((pctl->activepce[i])->seq_number != seqnumber))
     status = 1;
   else{
     if(block_number == (pctl->activepce[i])->recv_fragments){
@@ -364,7 +389,8 @@ int complete_activepce(struct pctl_st *pctl, int channel_index,
     return(-1);
 
   i = channel_index;
-  if((pctl->activepce[i])->seq_number != seqnumber)
+  if((pctl->f_active[i] == 0) ||
+     ((pctl->activepce[i])->seq_number != seqnumber))
     status = 1;
   else{
     if((pctl->activepce[i])->num_fragments > 
diff --git a/src/pctl.h b/src/pctl.h
index e251bdd..10dc811 100644
--- a/src/pctl.h
+++ b/src/pctl.h
@@ -94,6 +94,7 @@ struct pctldb_param_st {
 struct pctl_st {
   struct pctldb_st      *pctldb;     /* access by readers and processor */
   struct pctl_element_st **activepce; /* access only by readers */
+  int *f_active;		     /* if there is a product in the activepce */
   int num_activechannels;	     /* one for each noaaport channel */
   struct memfile_st *outputmf;   /* working mfile for assembling frames */
   struct pctl_element_st *pce;   /* working pce for processor */
-- 
2.43.0


From 368f4dc72c41c34f89f0d43cc966e84e23dc69ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:30 +0000
Subject: [PATCH 11/54] fix: a frame with an oversized control header must not
 abort the daemon or produce a negative data size

---
 src/sbn.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/sbn.c b/src/sbn.c
index 01e48f4..97061fd 100644
--- a/src/sbn.c
+++ b/src/sbn.c
@@ -5,7 +5,6 @@
  *
  * $Id$
  */
-#include <assert.h>
 #include <stdio.h>
 #include <string.h>
 #include <ctype.h>
@@ -204,6 +203,13 @@ int sbn_unpack_frame(struct sbn_frame *sbnf){
        */
       return(2);
     }
+
+    if(sbnf->ctrlhdr_size > sbnf->pdh.data_block_size){
+      /*
+       * The header cannot extend beyond the data in the frame.
+       */
+      return(2);
+    }
   }
 
   blkdata_offset += sbnf->ctrlhdr_size;
@@ -335,12 +341,10 @@ int copy_ctrlheader(char *ctrlheader, int *ctrlheader_size,
 
   if(sbnf->ctrlhdr_size > allocatedsize){
     /*
-     * If the actual size is larger than the allocated size passed to
-     * the function, we treat it is a non existent, although this is a bug
-     * in the allocation of the size of the buffer.
+     * If the actual size (which is whatever the frame says) is larger than
+     * the allocated size passed to the function, we treat it is a
+     * non existent.
      */
-    assert(allocatedsize >= sbnf->ctrlhdr_size);
-
     return(1);
   }
 
-- 
2.43.0


From 4a32c184e9712fe4c29eb4e9de0b009d967315ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:58 +0000
Subject: [PATCH 12/54] fix: ignore an awips identifier with a '/': it becomes
 part of the product's path

---
 src/sbn.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sbn.c b/src/sbn.c
index 97061fd..7224c55 100644
--- a/src/sbn.c
+++ b/src/sbn.c
@@ -488,7 +488,8 @@ int split_wmo_header(struct sbn_frame *sbnf,
 
   n = data_size - (i + 1);
   if((wmo[8] == '\n') && (n >= 9)){
-    if(sscanf(wmo, "%6s", wmo_awips) != 1)
+    /* It becomes part of a file name */
+    if((sscanf(wmo, "%6s", wmo_awips) != 1) || (strchr(wmo_awips, '/') != NULL))
       wmo_awips[0] = '\0';
   }else{
     b = 0;
-- 
2.43.0


From 07e9b707fd850ffd2c65d6ca3bf943b8e6d8cabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:57 +0000
Subject: [PATCH 13/54] fix: check the size of a packet from a master server
 before reading it

---
 src/nbs1r.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nbs1r.c b/src/nbs1r.c
index b832b64..f78db58 100644
--- a/src/nbs1r.c
+++ b/src/nbs1r.c
@@ -121,7 +121,8 @@ int recv_nbs_packet(int fd, struct nbs1_packet_st *nbs,
   /* transmitted_checksum = unpack_uint32(p, 8); */
 
   /* assert(data_size + NBS_ENVELOPE_SIZE <= NBS1_PACKET_MAXSIZE); */
-  if(data_size + NBS_ENVELOPE_SIZE > NBS1_PACKET_MAXSIZE)
+  if((data_size < NBS1_HEADER_SIZE) ||
+     (data_size > NBS1_PACKET_MAXSIZE - NBS_ENVELOPE_SIZE))
     return(1);
 
   n = readn(fd, &nbs->packet[NBS_ENVELOPE_SIZE], data_size, timeout_s, retry);
-- 
2.43.0


From 870e81faa7032308e3b4481053120231bf847e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:30 +0000
Subject: [PATCH 14/54] fix: check the size, the names and their termination in
 a notification record from a master server

---
 src/file.c   | 19 +++++++++++++++++++
 src/file.h   |  1 +
 src/packfp.c | 13 ++++++++++++-
 3 files changed, 32 insertions(+), 1 deletion(-)

diff --git a/src/file.c b/src/file.c
index d1539ba..e96a7d1 100644
--- a/src/file.c
+++ b/src/file.c
@@ -257,6 +257,25 @@ char *findbasename(char *path){
   return(p);
 }
 
+int valid_name(char *name){
+  /*
+   * The names and paths are passed to the filters in blank-separated,
+   * newline-terminated records. Returns 1 if the name is not empty and does
+   * not contain blanks or control characters, 0 otherwise.
+   */
+  unsigned char *p;
+
+  if(*name == '\0')
+    return(0);
+
+  for(p = (unsigned char*)name; *p != '\0'; ++p){
+    if((*p <= ' ') || (*p == 127))
+      return(0);
+  }
+
+  return(1);
+}
+
 char *make_temp_logfile(char *logfile, char *ext){
 /*
  * Logfiles that are meant to be read by other programs will be written
diff --git a/src/file.h b/src/file.h
index 00102d4..b7bd37b 100644
--- a/src/file.h
+++ b/src/file.h
@@ -18,6 +18,7 @@ int make_dir_tree(char *path, mode_t mode);
 int create_path_dirs(char *fname, mode_t mode);
 int append_file(int fd_to, int fd_from);
 char *findbasename(char *path);
+int valid_name(char *name);
 char *make_temp_logfile(char *logfile, char *ext);
 
 #endif
diff --git a/src/packfp.c b/src/packfp.c
index f5bc322..277d555 100644
--- a/src/packfp.c
+++ b/src/packfp.c
@@ -10,6 +10,7 @@
 #include <string.h>
 #include <errno.h>
 #include "util.h"
+#include "file.h"
 #include "nreadn.h"
 #include "packfp.h"
 #include "packfpu.h"
@@ -193,7 +194,8 @@ int recv_fp_packet(int fd, struct packet_info_st *packetinfo,
   /* transmitted_checksum = unpack_uint32(p, 8); */
 
   /* assert(data_size + NBS_ENVELOPE_SIZE <= packetinfo->packet_size); */
-  if(data_size + NBS_ENVELOPE_SIZE > packetinfo->packet_size)
+  if((data_size <= NBSFP_PINFO_SIZE) ||
+     (data_size > packetinfo->packet_size - NBS_ENVELOPE_SIZE))
     return(1);
 
   p += NBS_ENVELOPE_SIZE;
@@ -210,5 +212,14 @@ int recv_fp_packet(int fd, struct packet_info_st *packetinfo,
   if(status != 0)
     return(2);
 
+  /*
+   * The fname and the fpath must be '\0' terminated within the packet.
+   */
+  if((memchr(packetinfo->fname, '\0', FNAME_SIZE + 1) == NULL) ||
+     (memchr(packetinfo->fpath, '\0', data_size - NBSFP_PINFO_SIZE) == NULL) ||
+     (valid_name(packetinfo->fname) == 0) ||
+     (valid_name(packetinfo->fpath) == 0))
+    return(2);
+
   return(status);
 }
-- 
2.43.0


From dfb0949841367547492bea3f1539e3a319673467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:30 +0000
Subject: [PATCH 15/54] fix: a product name from a master server must not lead
 out of the spool directory

---
 src/slavenbs/framep.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/slavenbs/framep.c b/src/slavenbs/framep.c
index 9845f40..926670e 100644
--- a/src/slavenbs/framep.c
+++ b/src/slavenbs/framep.c
@@ -308,6 +308,14 @@ static int split_fbasename(struct pctl_element_st *pce){
   if(fbasename_size > FBASENAME_SIZE)
     return(1);
 
+  /*
+   * The fbasename is part of the path of the file, and the station is the
+   * name of its directory.
+   */
+  if((valid_name(pce->fbasename) == 0) || (pce->fbasename[0] == '.') ||
+     (strchr(pce->fbasename, '/') != NULL))
+    return(1);
+
   strncpy(fbasename, pce->fbasename, FBASENAME_SIZE + 1);
 
   p2 = strchr(fbasename, '.');
-- 
2.43.0


From bf2a5e56f44ed68a403ebc41a372e20b242c986f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:31 +0000
Subject: [PATCH 16/54] fix: the number of blocks claimed by a master server
 must not overflow the size of the memory file

---
 src/slavenbs/framep.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/slavenbs/framep.c b/src/slavenbs/framep.c
index 926670e..806a877 100644
--- a/src/slavenbs/framep.c
+++ b/src/slavenbs/framep.c
@@ -24,6 +24,12 @@
  * element in the pctl when all the blocks have been received.
  */
 
+/*
+ * The number of blocks claimed in a packet is used for the initial size of
+ * the memory file only up to this limit; beyond that the file grows as needed.
+ */
+#define NBS1_ESTIMATE_MAXBLOCKS		256
+
 static int estart_activepce(struct nbs1_packet_st *nbs);
 static int eupdate_activepce(struct nbs1_packet_st *nbs);
 static int eend_activepce(struct nbs1_packet_st *nbs);
@@ -128,7 +134,12 @@ static int estart_activepce(struct nbs1_packet_st *nbs){
    * to save calls to malloc, or save memory if it can be shrinked.
    * We ignore any errors here if the size could not be adjusted.
    */
-  mfile_size_estimate = NBS1_PACKET_MAXSIZE * pce->num_fragments;
+  mfile_size_estimate = NBS1_PACKET_MAXSIZE;
+  if(pce->num_fragments < NBS1_ESTIMATE_MAXBLOCKS)
+    mfile_size_estimate *= pce->num_fragments;
+  else
+    mfile_size_estimate *= NBS1_ESTIMATE_MAXBLOCKS;
+
   if(mfile_size_estimate < (size_t)g.memfile_minsize)
     mfile_size_estimate = (size_t)g.memfile_minsize;
 
-- 
2.43.0


From 0cea87b3ace7fa45eb9d21184777dfdf91cab037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:45 +0000
Subject: [PATCH 17/54] fix: check the size and the fields of a record from the
 local input pipe

---
 src/slavein/reader.c | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/slavein/reader.c b/src/slavein/reader.c
index 38541ce..14be0fe 100644
--- a/src/slavein/reader.c
+++ b/src/slavein/reader.c
@@ -21,6 +21,12 @@
 #include "slavein.h"
 #include "framep.h"
 
+/*
+ * The maximum size of a record, besides the fpath: five numbers,
+ * the fname and the blanks.
+ */
+#define FINFO_EXTRA_SIZE	256
+
 /*
  * private thread info (stored in the info field of the slave_element_st)
  */
@@ -190,8 +196,11 @@ static int recv_in_packet(struct slave_element_st *slave){
    */
   int status = 0;
   int finfo_size;
+  int finfo_maxsize;
+  uint32_t usize;
   unsigned char finfo_size_buf[4];
   int n;
+  int fname_start = 0;
   char *fpath;
   char *fname;
   char *fbasename;
@@ -215,7 +224,12 @@ static int recv_in_packet(struct slave_element_st *slave){
   if(status != 0)
     return(status);
 
-  finfo_size = unpack_uint32(finfo_size_buf, 0);
+  finfo_maxsize = (slavein_info->pce)->fpath_size + FINFO_EXTRA_SIZE;
+  usize = unpack_uint32(finfo_size_buf, 0);
+  if((usize == 0) || (usize > (uint32_t)finfo_maxsize))
+    return(1);
+
+  finfo_size = usize;
   if(slavein_info->buffer_size < finfo_size + 1){
     if(slavein_info->buffer != NULL)
       free(slavein_info->buffer);
@@ -244,12 +258,16 @@ static int recv_in_packet(struct slave_element_st *slave){
 
   slavein_info->buffer[finfo_size] = '\0';
 
-  if(sscanf(slavein_info->buffer, "%u %d %d %d %d",
+  if(strlen(slavein_info->buffer) != (size_t)finfo_size)
+    return(2);
+
+  if(sscanf(slavein_info->buffer, "%u %d %d %d %d %n",
 	    &(slavein_info->pce)->seq_number,
 	    &(slavein_info->pce)->psh_product_type,
 	    &(slavein_info->pce)->psh_product_category,
 	    &(slavein_info->pce)->psh_product_code,
-	    &(slavein_info->pce)->np_channel_index) != 5){
+	    &(slavein_info->pce)->np_channel_index,
+	    &fname_start) != 5){
     return(3);
   }
 
@@ -268,6 +286,10 @@ static int recv_in_packet(struct slave_element_st *slave){
   ++fpath;
   ++fname;
 
+  if((fname != slavein_info->buffer + fname_start) ||
+     (valid_name(fname) == 0) || (valid_name(fpath) == 0))
+    return(5);
+
   fpath_len = strlen(fpath);
   if(fpath_len + 1 > (slavein_info->pce)->fpath_size)
     return(6);
-- 
2.43.0


From 6375f8587b2d740fd9612e167be720a450f050b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:06 +0000
Subject: [PATCH 18/54] fix: refuse a packet from a master server with an
 impossible block number

---
 src/nbs1r.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nbs1r.c b/src/nbs1r.c
index f78db58..52444a3 100644
--- a/src/nbs1r.c
+++ b/src/nbs1r.c
@@ -154,6 +154,9 @@ int recv_nbs_packet(int fd, struct nbs1_packet_st *nbs,
   if(data_size != NBS1_HEADER_SIZE + nbs->block_size)
     return(2);
 
+  if((nbs->block_number == 0) || (nbs->block_number > nbs->num_blocks))
+    return(2);
+
   /*
    * There should be no need to check this if nbsp is a tcp slave.
    * It could be needed if other method is used.
-- 
2.43.0


From 375fec907cb4655aa73171eb5b8d424bf229c367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:34 +0000
Subject: [PATCH 19/54] fix: remember a recovered product by its original
 number, it may be retransmitted again

---
 src/nbsp.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/nbsp.c b/src/nbsp.c
index 6fd4dba..8b44350 100644
--- a/src/nbsp.c
+++ b/src/nbsp.c
@@ -448,8 +448,14 @@ static int process_pctl_element(struct pctl_element_st *pce){
    * Insert the seqnumber_ok element of the record in the received files db, 
    * to indicate that the product has been received complete.
    */
-  if((status == 0) && (pce->rtxdb_flag == 1))
+  if((status == 0) && (pce->rtxdb_flag == 1)){
       e_nbsp_rtxdb_put_ok(pce->seq_number);
+      /*
+       * The original may be retransmitted more than once.
+       */
+      if(pce->orig_seq_number != 0)
+	e_nbsp_rtxdb_put_ok(pce->orig_seq_number);
+  }
 
   /*
    * Insert the packet in the filter and server queues.
-- 
2.43.0


From 960f409e73a9160ec4660b8da6dd841d9f3cbb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:48 +0000
Subject: [PATCH 20/54] fix: the late report of an incomplete product must not
 undo the record of its recovery

---
 src/ertxdb.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ertxdb.c b/src/ertxdb.c
index 3ab3757..74b0582 100644
--- a/src/ertxdb.c
+++ b/src/ertxdb.c
@@ -88,6 +88,7 @@ int e_nbsp_rtxdb_put_fail(unsigned int seqnum){
 
   int status;
   int fstatus = 1;	/* fail */
+  int old_fstatus;
 
   if(g.rtxdb == NULL){
     /*
@@ -96,6 +97,14 @@ int e_nbsp_rtxdb_put_fail(unsigned int seqnum){
     return(0);
   }
 
+  /*
+   * An incomplete product can be reported after a retransmission of it
+   * was received; the record of the latter must not be lost.
+   */
+  if((nbsp_rtxdb_get(g.rtxdb, seqnum, &old_fstatus) == 0) &&
+     (old_fstatus == 0))
+    return(0);
+
   status = nbsp_rtxdb_put(g.rtxdb, seqnum, fstatus);
   if(status != 0)
     status = nbsp_rtxdb_log_err("Could not put record in rtx db.", status);
-- 
2.43.0


From cbb271fc78057a482134f64a4d54cae5543f96c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:39 +0000
Subject: [PATCH 21/54] fix: after a restart, use the right one of the two
 databases of received products as the current one

---
 src/rtxdb.c | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/rtxdb.c b/src/rtxdb.c
index 54a4575..b1d0e94 100644
--- a/src/rtxdb.c
+++ b/src/rtxdb.c
@@ -21,6 +21,15 @@ static int rtxdb_read_record2(DB *dbp, unsigned int seqnum,
 static int rtxdb_write_record2(DB *dbp, unsigned int seqnum,
 			       struct nbsp_rtxdb_data_st *rtxdata);
 static int rtxdb_compare(DB *dbp, const DBT *a, const DBT *b);
+static int rtxdb_read_generation(DB *dbp);
+
+/*
+ * The two databases exchange their roles every time that the old records
+ * are discarded. To know which one is the current one when they are opened
+ * again, the generation number is saved under a key that is not used
+ * by any retransmission.
+ */
+#define NBSP_RTXDB_GENERATION_SEQNUM	0
 
 int nbsp_rtxdb_open(struct nbsp_rtxdb_st **rtxdb, DB_ENV *dbenv,
 		    char *dbfname, mode_t mode){
@@ -76,6 +85,10 @@ int nbsp_rtxdb_open(struct nbsp_rtxdb_st **rtxdb, DB_ENV *dbenv,
     (*rtxdb)->dbp2 = dbp2;
     (*rtxdb)->dbp_c = dbp1;
     (*rtxdb)->dbp_o = dbp2;
+    if(rtxdb_read_generation(dbp2) > rtxdb_read_generation(dbp1)){
+      (*rtxdb)->dbp_c = dbp2;
+      (*rtxdb)->dbp_o = dbp1;
+    }
   }
 
   if(status != 0){
@@ -116,6 +129,9 @@ int nbsp_rtxdb_put(struct nbsp_rtxdb_st *rtxdb,
   int status;
   struct nbsp_rtxdb_rec_st rec;
 
+  if(seqnum == NBSP_RTXDB_GENERATION_SEQNUM)
+    return(0);
+
   rec.data.fstatus = fstatus;
   rec.seqnum = seqnum;
   status = rtxdb_write_record(rtxdb->dbp_c, &rec);
@@ -155,6 +171,7 @@ int nbsp_rtxdb_truncate(struct nbsp_rtxdb_st *rtxdb){
   int status = 0;
   u_int32_t count;
   DB *dbp = NULL;
+  struct nbsp_rtxdb_rec_st rec;
 
   /*
    * The old db becomes the current one, which is truncated.
@@ -166,6 +183,12 @@ int nbsp_rtxdb_truncate(struct nbsp_rtxdb_st *rtxdb){
   if(dbp != NULL)
     status = dbp->truncate(dbp, NULL, &count, 0);
 
+  if(status == 0){
+    rec.seqnum = NBSP_RTXDB_GENERATION_SEQNUM;
+    rec.data.fstatus = rtxdb_read_generation(rtxdb->dbp_o) + 1;
+    status = rtxdb_write_record(dbp, &rec);
+  }
+
   return(status);
 }
 
@@ -234,6 +257,17 @@ static int rtxdb_read_record2(DB *dbp,
   return(status);
 }
 
+static int rtxdb_read_generation(DB *dbp){
+
+  struct nbsp_rtxdb_rec_st rec;
+
+  rec.seqnum = NBSP_RTXDB_GENERATION_SEQNUM;
+  if(rtxdb_read_record(dbp, &rec) != 0)
+    return(0);
+
+  return(rec.data.fstatus);
+}
+
 static int rtxdb_compare(DB *dbp __attribute__((unused)),
 			 const DBT *a, const DBT*b){
   unsigned int ai, bi;
-- 
2.43.0


From 9eb494c98f37625f9698cdfccbc74e2e4b6d4173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:38 +0000
Subject: [PATCH 22/54] sim: allow small spools when built for the simulation
 (NBSPSIM)

---
 src/defaults.h.in | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/defaults.h.in b/src/defaults.h.in
index 0eadcc5..4d18ad1 100644
--- a/src/defaults.h.in
+++ b/src/defaults.h.in
@@ -139,7 +139,11 @@
  * (The value of SPOOLDB_SLOTS influences QUEUE_MAXSIZE_HARD below.)
  */
 #define SPOOLDB_SLOTS		262144		/* 2048*128 */
+#ifdef NBSPSIM
+#define SPOOLDB_SLOTS_MIN	2	/* simulation of small spools */
+#else
 #define SPOOLDB_SLOTS_MIN	1024
+#endif
 #define SPOOLDB_FNAME		"/var/noaaport/nbsp/db/spool.state"
 
 /*
-- 
2.43.0


From 403a58bbefdf57e55fcccfd0f72c246254350dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:39 +0000
Subject: [PATCH 23/54] fix: nbspinsert must not leave the end of an older
 longer file after the data it saves

---
 tools/nbspinsert/nbspinsert.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/nbspinsert/nbspinsert.c b/tools/nbspinsert/nbspinsert.c
index 048a795..a758484 100644
--- a/tools/nbspinsert/nbspinsert.c
+++ b/tools/nbspinsert/nbspinsert.c
@@ -500,7 +500,7 @@ static int save_fpath(void) {
    char input_buffer[FPATH_INPUT_BUFFER_SIZE];
    size_t input_buffer_size = FPATH_INPUT_BUFFER_SIZE;
      
-   fd = open(g.fpath, O_WRONLY | O_CREAT, FPATH_MODE);
+   fd = open(g.fpath, O_WRONLY | O_CREAT | O_TRUNC, FPATH_MODE);
    if(fd == -1){
      log_err(0, "%s %s", "Error opening", g.fpath);
 
-- 
2.43.0


From b0c44b5f0085ed0f0aa0e284839c7ecb0ed22af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:39 +0000
Subject: [PATCH 24/54] fix: nbspinsert must not report success for a file that
 nbspd refuses because of its name

---
 tools/nbspinsert/nbspinsert.c | 45 +++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/tools/nbspinsert/nbspinsert.c b/tools/nbspinsert/nbspinsert.c
index a758484..8b34b36 100644
--- a/tools/nbspinsert/nbspinsert.c
+++ b/tools/nbspinsert/nbspinsert.c
@@ -77,6 +77,13 @@
 #define FINFO_BUFFER_SIZE 1024 /* see create_finfo() */
 #define FPATH_INPUT_BUFFER_SIZE 1024
 #define FPATH_MODE 0666 /* mode_t of fpath if it is created (save_fpath() */
+
+/*
+ * nbspd refuses names longer than these (FNAME_SIZE and FBASENAME_SIZE
+ * in src/const.h)
+ */
+#define FNAME_MAXSIZE 18
+#define FBASENAME_MAXSIZE 36
 			  
 static struct {
   char *seq;
@@ -102,6 +109,7 @@ static struct {
 static void cleanup(void);
 static void check_options(void);
 static int validate_input(void);
+static int valid_name(char *name);
 static int open_nbsp_infifo(void);
 static void close_nbsp_infifo(void);
 static int process_file(void);
@@ -214,6 +222,7 @@ static int validate_input(void) {
   int status = 0;
   uint32_t u32;
   uint u;
+  char *p;
 
   status = strto_u32(g.seq, &u32);
   if (status != 0) {
@@ -256,9 +265,45 @@ static int validate_input(void) {
     log_errx(1, "%s: %s", "Invalid input: npchidx", g.npchidx);
   }
 
+  if((valid_name(g.fname) == 0) || (strlen(g.fname) > FNAME_MAXSIZE)) {
+    status = 1;
+    log_errx(1, "%s: %s", "Invalid input: fname", g.fname);
+  }
+
+  p = strrchr(g.fpath, '/');
+  if(p == NULL)
+    p = g.fpath;
+  else
+    ++p;
+
+  if((valid_name(g.fpath) == 0) || (*p == '\0') ||
+     (strlen(p) > FBASENAME_MAXSIZE)) {
+    status = 1;
+    log_errx(1, "%s: %s", "Invalid input: fpath", g.fpath);
+  }
+
   return(status);
 }
 
+static int valid_name(char *name) {
+  /*
+   * The names are sent in blank-separated, newline-terminated records,
+   * and nbspd discards those that have an empty name or one with blanks or
+   * control characters.
+   */
+  unsigned char *p;
+
+  if(*name == '\0')
+    return(0);
+
+  for(p = (unsigned char*)name; *p != '\0'; ++p) {
+    if((*p <= ' ') || (*p == 127))
+      return(0);
+  }
+
+  return(1);
+}
+
 static int open_nbsp_infifo(void) {
 
   int fd = -1;
-- 
2.43.0


From ae158324deb68c198e39964e8b158e7e6a3e32fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:39 +0000
Subject: [PATCH 25/54] fix: a refused record from the input fifo must not
 discard the ones that follow it

---
 src/slavein/reader.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/slavein/reader.c b/src/slavein/reader.c
index 14be0fe..6a7e91a 100644
--- a/src/slavein/reader.c
+++ b/src/slavein/reader.c
@@ -157,12 +157,17 @@ int slavein_loop(struct slave_element_st *slave){
 
   /*
    * We close the input fifo on an error. If there has not been any
-   * input, we don't close since that is not a real error.
+   * input, we don't close since that is not a real error. If a complete
+   * record was read but it has been refused, closing the fifo would lose the
+   * good ones that other programs have already written.
    */ 
   if(status != 0){
     if(status == -2)
       return(0);
-    else{
+    else if(status >= 3){
+      slave_stats_update_errors(slave);
+      return(2);
+    }else{
       slave_stats_update_connect_errors(slave);
       return(1);
     }
@@ -259,7 +264,7 @@ static int recv_in_packet(struct slave_element_st *slave){
   slavein_info->buffer[finfo_size] = '\0';
 
   if(strlen(slavein_info->buffer) != (size_t)finfo_size)
-    return(2);
+    return(3);
 
   if(sscanf(slavein_info->buffer, "%u %d %d %d %d %n",
 	    &(slavein_info->pce)->seq_number,
-- 
2.43.0


From d85149df2cd5bfcf6964805cd2c469628bd78a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:40 +0000
Subject: [PATCH 26/54] fix: a failed descriptor is an error, it must not be
 reported as a timeout or as the end of the data

---
 src/nreadn.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/nreadn.c b/src/nreadn.c
index 8c9a69d..b6da749 100644
--- a/src/nreadn.c
+++ b/src/nreadn.c
@@ -96,10 +96,11 @@ ssize_t read1(int fd, void *buf, size_t size, unsigned int msecs, int retry){
     n = -2;
   else if(status == -1)
     n = -1;
-  else if((pfd.revents & POLLIN) != 0){
+  else{
     /*
      * This read() returns either -1 or a positive number for fifos
-     * but it can be zero for network sockets.
+     * but it can be zero for network sockets. If poll() reported only an
+     * error or a hangup, the read() tells which.
      */
     n = read(fd, buf, size);
   }
@@ -132,8 +133,13 @@ ssize_t write1(int fd, void *buf, size_t size, unsigned int msecs, int retry){
 
   if(status == -1)
     n = -1;
-  else if((status > 0) && ((pfd.revents & POLLOUT) != 0))
+  else if(status > 0){
+    /*
+     * If poll() reported only an error or a hangup, it is not a timeout;
+     * the write() returns the error.
+     */
     n = write(fd, buf, size);
+  }
 
   return(n);
 }
-- 
2.43.0


From c5ad83e03032cf51bc646bcd0cb038a6a7da5e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:40 +0000
Subject: [PATCH 27/54] fix: data that arrives just after the timeout of a read
 from a fifo must not be discarded

---
 src/nreadn.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/nreadn.c b/src/nreadn.c
index b6da749..ea6b68a 100644
--- a/src/nreadn.c
+++ b/src/nreadn.c
@@ -236,15 +236,8 @@ ssize_t readn_fifo(int fd, void *buf, size_t size, unsigned int secs){
    * will not return 0 on eof for fifos, but -2 because poll will timeout,
    * here we make another read() without calling poll.
    */ 
-  ssize_t n;
-
-  n = readn(fd, buf, size, secs, 0);
-  if(n == -2){
-    if(read(fd, buf, size) == 0)
-      n = 0;
-  }
 
-  return(n);
+  return(readm_fifo(fd, buf, size, 1000*secs));
 }
 
 ssize_t readm_fifo(int fd, void *buf, size_t size, unsigned int msecs){
@@ -252,11 +245,26 @@ ssize_t readm_fifo(int fd, void *buf, size_t size, unsigned int msecs){
    * Similar as above.
    */ 
   ssize_t n;
+  ssize_t m;
 
   n = readm(fd, buf, size, msecs, 0);
   if(n == -2){
-    if(read(fd, buf, size) == 0)
+    m = read(fd, buf, size);
+    if(m == 0)
       n = 0;
+    else if(m > 0){
+      /*
+       * Some data arrived after poll timed out; it must not be discarded.
+       */
+      n = m;
+      if((size_t)n < size){
+	m = readm(fd, &((char*)buf)[n], size - n, msecs, 0);
+	if(m == -1)
+	  n = -1;
+	else if(m > 0)
+	  n += m;
+      }
+    }
   }
 
   return(n);
-- 
2.43.0


From 978d2452347df5a5f9f3b78225378480ec933d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:38 +0000
Subject: [PATCH 28/54] fix: an incompletely written product file must not be
 left in the spool

---
 src/nbsp.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nbsp.c b/src/nbsp.c
index 8b44350..108e730 100644
--- a/src/nbsp.c
+++ b/src/nbsp.c
@@ -570,6 +570,13 @@ static int pce_savefs_memfile(struct pctl_element_st *pce,
 
   close(fd);
 
+  /*
+   * Nobody will be told about an incomplete file, and it would be taken for
+   * the product if another copy arrives.
+   */
+  if(status != 0)
+    (void)unlink(pce->fpath);
+
   return(status);
 }
 
-- 
2.43.0


From 962d1d47eeb613e9a046f1f0137f1490099b76d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:38 +0000
Subject: [PATCH 29/54] fix: the queue of a client whose thread could not be
 created was closed twice

---
 src/libconnth/ce.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libconnth/ce.c b/src/libconnth/ce.c
index cbd8553..73f3157 100644
--- a/src/libconnth/ce.c
+++ b/src/libconnth/ce.c
@@ -121,6 +121,7 @@ int conn_element_init4(struct conn_element_st *ce,
   status = thcreateproc(ce, &thread_id);
   if(status != 0){
     (void)connqueue_close(ce->cq, &dberror_ignore);
+    ce->cq = NULL;
     (void)pthread_mutex_destroy(&(ce->threadinfo)->mutex);
     ce->thkillproc = NULL;
     free(ce->threadinfo);
-- 
2.43.0


From 6c13ae3b86e8a3d77b1ed1e6f2dea39e28e1d627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:38 +0000
Subject: [PATCH 30/54] fix: check the allocation of the client address

---
 src/libconnth/tcpsock.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libconnth/tcpsock.c b/src/libconnth/tcpsock.c
index 47cd5cf..8a01d7d 100644
--- a/src/libconnth/tcpsock.c
+++ b/src/libconnth/tcpsock.c
@@ -288,6 +288,9 @@ char *get_peer_ip(int cfd){
     return(NULL);
 
   ip = malloc(strlen(addr) + 1);
+  if(ip == NULL)
+    return(NULL);
+
   strncpy(ip, addr, strlen(addr) + 1);
 
   return(ip);
-- 
2.43.0


From ad7e843f052cf75e5fc308822c49e2f99135d074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:14 +0000
Subject: [PATCH 31/54] fix: the client table was lost when it could not grow

---
 src/libconnth/conn.c | 11 ++++++-----
 src/libconnth/poll.c |  7 ++++++-
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/libconnth/conn.c b/src/libconnth/conn.c
index c57108d..cb6fc26 100644
--- a/src/libconnth/conn.c
+++ b/src/libconnth/conn.c
@@ -190,10 +190,8 @@ static int conn_table_grow(struct conn_table_st *ct){
   struct pollfd *pfd;
   struct conn_element_st *ce;
   int new_nsize;
-  int old_nsize;
   size_t size;
 
-  old_nsize = ct->nmax;
   new_nsize = ct->nmax * GROW_FACTOR;
 
   size = sizeof(struct pollfd) * new_nsize;
@@ -202,15 +200,18 @@ static int conn_table_grow(struct conn_table_st *ct){
     return(-1);
   }
 
+  /*
+   * The old block is no longer valid. If the next allocation fails the
+   * table just keeps the bigger one.
+   */
+  ct->pfd = pfd;
+
   size = sizeof(struct conn_element_st) * new_nsize;
   ce = realloc(ct->ce, size);
   if(ce == NULL){
-    size = sizeof(struct pollfd) * old_nsize;
-    ct->pfd = realloc(pfd, size);
     return(-1);
   }
 
-  ct->pfd = pfd;
   ct->ce = ce;
   ct->nmax = new_nsize;
 
diff --git a/src/libconnth/poll.c b/src/libconnth/poll.c
index e960eb7..c514978 100644
--- a/src/libconnth/poll.c
+++ b/src/libconnth/poll.c
@@ -287,8 +287,13 @@ static int poll_add_connection_net(struct conn_table_st *ct, int sindex,
 				  clientopts->reconnect_wait_sleep_secs,
 				  clientopts->reconnect_wait_sleep_retry,
 				  clientopts->queue_read_timeout_ms);
-  if(status != 0)
+  if(status != 0){
+    if(client_name != NULL)
+      free(client_name);
+
+    free(client_ip);
     close(client_fd);
+  }
   
   return(status);
 }
-- 
2.43.0


From a3a6ee2b1ab8b67e6d98546d4d020bd0a1a7856d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:14 +0000
Subject: [PATCH 32/54] fix: do not use the name of the temporary db stats file
 when it could not be allocated

---
 src/dbstats.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dbstats.c b/src/dbstats.c
index 34b9e48..4f1967f 100644
--- a/src/dbstats.c
+++ b/src/dbstats.c
@@ -23,8 +23,10 @@ void nbsp_dbstats(DB_ENV *dbenv, char *logfile){
   char *tmplogfile;
 
   tmplogfile = make_temp_logfile(logfile, TEMP_FILE_EXT);
-  if(tmplogfile == NULL)
+  if(tmplogfile == NULL){
     log_err("Error reporting db stats.");
+    return;
+  }
 
   fp = fopen(tmplogfile, "w");
   if(fp == NULL){
-- 
2.43.0


From 922a1000d0a8218a27bcdc851a4ebf43a2eb3005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:53 +0000
Subject: [PATCH 33/54] fix: a filter that cannot be opened when loading the
 filters, because of a shortage, must not be forgotten

---
 src/filters.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/filters.c b/src/filters.c
index 2a4fb32..3088237 100644
--- a/src/filters.c
+++ b/src/filters.c
@@ -831,11 +831,11 @@ static void open_filters1(int reopen_flag){
       status = reopen_one_filter(i);
     if(status == -1){
       /*
-       * Open error.
+       * Open error, e.g., a temporary shortage of processes or descriptors.
+       * As in the case of a write error in sendto_filters(), let
+       * sendto_one_filter() continue trying to open it.
        */
       log_err_open(gflist.filters[i].fname);
-      log_info("Removing %s.", gflist.filters[i].fname);
-      delete_filter_entry(i);
     }else if(status == 1){
       /*
        * This filter is not listening, remove it also.
-- 
2.43.0


From 1a7fd2daeab48d14aaef0e5dc28781319013b0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:30 +0000
Subject: [PATCH 34/54] fix: the total size of the queued products must not
 keep that of one that could not be read for lack of memory

---
 src/pctlmfdb.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pctlmfdb.c b/src/pctlmfdb.c
index 8744e74..2c52789 100644
--- a/src/pctlmfdb.c
+++ b/src/pctlmfdb.c
@@ -100,6 +100,7 @@ int pctlmfdb_rcv(struct pctldb_st *pctldb, struct timespec *ts,
 
   int status = 0;
   int dberror_del;
+  size_t data_size;	/* size of the saved memfile, even if it cannot be read */
   DBT key, data;
   DB* mfdbp = pctldb->mfdbp;
 
@@ -113,6 +114,7 @@ int pctlmfdb_rcv(struct pctldb_st *pctldb, struct timespec *ts,
   data.ulen = get_memfile_allocated_size(mf);
   data.flags = DB_DBT_USERMEM;
   *dberror = mfdbp->get(mfdbp, NULL, &key, &data, 0);
+  data_size = data.size;
   if(*dberror == DB_BUFFER_SMALL){
     status = realloc_memfile(mf, data.size);
     if(status == 0){
@@ -127,14 +129,14 @@ int pctlmfdb_rcv(struct pctldb_st *pctldb, struct timespec *ts,
     mf->size = data.size;
   else{
     status = -1;
-    mf->size = 0; /* Only for convenience in the substraction below */
+    mf->size = 0;
   }
 
   dberror_del = mfdbp->del(mfdbp, NULL, &key, 0);
 
   if(dberror_del == 0){
-    if(pctldb->mf_total_size > mf->size)
-      pctldb->mf_total_size -= mf->size;
+    if(pctldb->mf_total_size > data_size)
+      pctldb->mf_total_size -= data_size;
     else
       pctldb->mf_total_size = 0;
   }else{
-- 
2.43.0


From 4aa059bd43066f343a2368804f1779a2eff0f7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:05 +0000
Subject: [PATCH 35/54] fix: the periodic tasks must neither stop nor be
 repeated in a burst when the clock is stepped

---
 src/per.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/per.c b/src/per.c
index d5b920c..e49f135 100644
--- a/src/per.c
+++ b/src/per.c
@@ -123,8 +123,15 @@ void periodic(void){
   now = time(NULL);
   minute_now = current_minute(now);
   while(ev->proc != NULL){
-    if(now >= ev->next){
+    /*
+     * If the clock was set forward, the events that were skipped are not
+     * made up for, and if it was set back the next one is due no later than
+     * one period from now.
+     */
+    if((now >= ev->next) || (ev->next > now + ev->period)){
       ev->next += ev->period;
+      if((ev->next <= now) || (ev->next > now + ev->period))
+	ev->next = now + ev->period;
       ev->proc();
     }
     ++ev;
-- 
2.43.0


From 29d4798edca22f855a1630c98381dfb5539ef50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:05 +0000
Subject: [PATCH 36/54] fix: a backward step of the clock must not stop the
 server from accepting clients or the reports of masters, clients and queue
 limits

---
 src/libconnth/ce.c | 2 +-
 src/serverm.c      | 6 ++++--
 src/slavet.c       | 4 ++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/libconnth/ce.c b/src/libconnth/ce.c
index 73f3157..541710d 100644
--- a/src/libconnth/ce.c
+++ b/src/libconnth/ce.c
@@ -320,7 +320,7 @@ int conn_element_report_cstats(struct conn_element_st *ce,
      * plus the configured period.
      */
     now = time(NULL);
-    if(now < (cs->rtime + period))
+    if((now >= cs->rtime) && (now < (cs->rtime + period)))
       return(0);
   }
 
diff --git a/src/serverm.c b/src/serverm.c
index d700673..e5ad294 100644
--- a/src/serverm.c
+++ b/src/serverm.c
@@ -892,7 +892,7 @@ static int server_send_client_queues(struct packet_info_st *packetinfo){
     else if(status != 0){
       now = time(NULL);
       last = get_client_qlimit_log_last(&g.ct->ce[i]);
-      if(now > last + g.server_clientqlimit_logperiod_secs){
+      if((now < last) || (now > last + g.server_clientqlimit_logperiod_secs)){
 	set_client_qlimit_log_last(&g.ct->ce[i], now);
 
 	if(status == 1)
@@ -1002,7 +1002,9 @@ static int get_process_connections_flag(void){
   time_t now;
 
   now = time(NULL);
-  if(now < gprocess_connections_time)
+  /* If the clock was set back do not wait until it catches up. */
+  if((now < gprocess_connections_time) &&
+     (gprocess_connections_time - now <= SERVER_PROCESS_CONNECTIONS_PERIOD_SECS))
     return(0);
 
   gprocess_connections_time = now + SERVER_PROCESS_CONNECTIONS_PERIOD_SECS;
diff --git a/src/slavet.c b/src/slavet.c
index d750e64..5ed4c84 100644
--- a/src/slavet.c
+++ b/src/slavet.c
@@ -559,8 +559,8 @@ void slave_stats_report(struct slave_element_st *slave){
   FILE *f;
 
   now = time(NULL);
-  if(now < slave->stats.rtime + 
-     (time_t)slave->options.slave_stats_logperiod_secs){
+  if((now >= slave->stats.rtime) && (now < slave->stats.rtime + 
+     (time_t)slave->options.slave_stats_logperiod_secs)){
     return;
   }
 
-- 
2.43.0


From f37ab48317e6047469be4ecd13d00397923c803f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:19 +0000
Subject: [PATCH 37/54] fix: the waits of the queues must not last for as long
 as the clock was set back

---
 src/libqdb/qdb.c | 36 +++++++++++++++++++++++++++++++++++-
 src/pctldb.c     | 36 +++++++++++++++++++++++++++++++++++-
 2 files changed, 70 insertions(+), 2 deletions(-)

diff --git a/src/libqdb/qdb.c b/src/libqdb/qdb.c
index 54582b4..50bb51d 100644
--- a/src/libqdb/qdb.c
+++ b/src/libqdb/qdb.c
@@ -10,6 +10,8 @@
 #include <string.h>
 #include <sys/time.h>   /* gettimeofday */
 #include <errno.h>
+#include <time.h>
+#include <unistd.h>	/* _POSIX_CLOCK_SELECTION */
 #include "qdb.h"
 
 #define QDB_FLAGS	(DB_CREATE | DB_THREAD)
@@ -20,6 +22,7 @@ static void qmem_rcv(struct nbspq_st *nbspq, void *p);
 static void qmem_clear(struct nbspq_st *nbspq);
 static int queue_soft_limit(int n, int softlimit);
 static int queue_hard_limit(int n, int hardlimit);
+static int queue_cond_init(pthread_cond_t *cond);
 static void queue_set_timeout(unsigned int timeout_ms,
 			      struct timespec *timeout);
 
@@ -351,7 +354,7 @@ int qdb_open(struct nbspq_st **nbspq, struct qdb_param_st *qdbparam,
   if(status == 0){
     status = pthread_mutex_init(&q->mutex, NULL);
     if(status == 0){
-      status = pthread_cond_init(&q->cond, NULL);
+      status = queue_cond_init(&q->cond);
       if(status != 0)
 	pthread_mutex_destroy(&q->mutex);
     }
@@ -597,17 +600,48 @@ int test_qdb_status_flag(struct nbspq_st *nqdb, int flag){
   return(0);
 }
 
+/*
+ * The waits are timed with a clock that does not jump when the system clock
+ * is set, if there is one; otherwise a wait could last for as long as
+ * the system clock was set back.
+ */
+static int queue_cond_init(pthread_cond_t *cond){
+
+  int status;
+#if defined(_POSIX_CLOCK_SELECTION) && (_POSIX_CLOCK_SELECTION > 0)
+  pthread_condattr_t attr;
+
+  status = pthread_condattr_init(&attr);
+  if(status != 0)
+    return(status);
+
+  status = pthread_condattr_setclock(&attr, CLOCK_MONOTONIC);
+  if(status == 0)
+    status = pthread_cond_init(cond, &attr);
+
+  pthread_condattr_destroy(&attr);
+#else
+  status = pthread_cond_init(cond, NULL);
+#endif
+
+  return(status);
+}
+
 /*
  * Utility function to set the default pthreads timeout
  */
 static void queue_set_timeout(unsigned int timeout_ms,
 			      struct timespec *timeout){
 
+#if defined(_POSIX_CLOCK_SELECTION) && (_POSIX_CLOCK_SELECTION > 0)
+  clock_gettime(CLOCK_MONOTONIC, timeout);
+#else
   struct timeval tv;
 
   gettimeofday(&tv, NULL);
   timeout->tv_sec = tv.tv_sec;
   timeout->tv_nsec = tv.tv_usec * 1000;
+#endif
 
   timeout->tv_sec += (timeout_ms/1000);
   timeout->tv_nsec += (timeout_ms % 1000)*1000000;
diff --git a/src/pctldb.c b/src/pctldb.c
index c13fffb..a022220 100644
--- a/src/pctldb.c
+++ b/src/pctldb.c
@@ -10,6 +10,8 @@
 #include <string.h>
 #include <sys/time.h>   /* gettimeofday */
 #include <errno.h>
+#include <time.h>
+#include <unistd.h>	/* _POSIX_CLOCK_SELECTION */
 #include "oscompat.h"
 #include "pctl.h"
 
@@ -19,6 +21,7 @@ static int pctldb_stat(struct pctldb_st *pctldb);
 static int pctlmfdb_stat(struct pctldb_st *pctldb, int *dberror);
 static int pctldb_soft_limit(struct pctldb_st *pctldb);
 static int pctldb_hard_limit(struct pctldb_st *pctldb, uint32_t mf_size);
+static int pctldb_cond_init(pthread_cond_t *cond);
 static void pctldb_set_timeout(unsigned int timeout_ms,
 			       struct timespec *timeout);
 
@@ -74,7 +77,7 @@ int pctldb_open(struct pctldb_st **pctldb,
   if(status == 0){
     status = pthread_mutex_init(&p->mutex, NULL);
     if(status == 0){
-      status = pthread_cond_init(&p->cond, NULL);
+      status = pctldb_cond_init(&p->cond);
       if(status != 0)
 	pthread_mutex_destroy(&p->mutex);
     }
@@ -452,17 +455,48 @@ static int pctldb_soft_limit(struct pctldb_st *pctldb){
   return(status);
 }
 
+/*
+ * The waits are timed with a clock that does not jump when the system clock
+ * is set, if there is one; otherwise a wait could last for as long as
+ * the system clock was set back.
+ */
+static int pctldb_cond_init(pthread_cond_t *cond){
+
+  int status;
+#if defined(_POSIX_CLOCK_SELECTION) && (_POSIX_CLOCK_SELECTION > 0)
+  pthread_condattr_t attr;
+
+  status = pthread_condattr_init(&attr);
+  if(status != 0)
+    return(status);
+
+  status = pthread_condattr_setclock(&attr, CLOCK_MONOTONIC);
+  if(status == 0)
+    status = pthread_cond_init(cond, &attr);
+
+  pthread_condattr_destroy(&attr);
+#else
+  status = pthread_cond_init(cond, NULL);
+#endif
+
+  return(status);
+}
+
 /*
  * Utility function to set the default pthreads timeout
  */
 static void pctldb_set_timeout(unsigned int timeout_ms,
 			       struct timespec *timeout){
 
+#if defined(_POSIX_CLOCK_SELECTION) && (_POSIX_CLOCK_SELECTION > 0)
+  clock_gettime(CLOCK_MONOTONIC, timeout);
+#else
   struct timeval tv;
 
   gettimeofday(&tv, NULL);
   timeout->tv_sec = tv.tv_sec;
   timeout->tv_nsec = tv.tv_usec * 1000;
+#endif
 
   timeout->tv_sec += (timeout_ms/1000);
   timeout->tv_nsec += (timeout_ms % 1000)*1000000;
-- 
2.43.0


From 5fd78c50a21e6f73eb0b49a6d11d180a247024ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:59 +0000
Subject: [PATCH 38/54] fix: an instance that cannot or should not run must not
 remove the state fifo of the one that is running

---
 src/init.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/init.c b/src/init.c
index b26dd42..87e2d51 100644
--- a/src/init.c
+++ b/src/init.c
@@ -302,8 +302,11 @@ void cleanup(void){
 
 void cleanup_files(void){
 
-  kill_qstate_fifo();
+  /*
+   * Without the lock the fifo belongs to the instance that is running.
+   */
   if(g.f_lock == 1){
+    kill_qstate_fifo();
     if(remove_pidfile(g.pidfile) != 0)
       log_err("Could not remove pidfile.");
 
-- 
2.43.0


From cec1b467c96acdd0ed263da24171012442445e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:59 +0000
Subject: [PATCH 39/54] fix: a pid file that could not be written must not be
 left behind or be taken as written

---
 src/pid.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pid.c b/src/pid.c
index b1e42f9..3b5091c 100644
--- a/src/pid.c
+++ b/src/pid.c
@@ -45,13 +45,18 @@ int create_pidfile(char *name, mode_t mode){
   if(status == 0){
     pid = getpid();
     pidmax = pid;
-    if(fprintf(f, "%" PRIdMAX "\n", pidmax) < 0){
+    if(fprintf(f, "%" PRIdMAX "\n", pidmax) < 0)
+      status = 2;
+
+    /* The pid is actually written here. */
+    if(fclose(f) != 0)
       status = 2;
-      unlink(name);
-    }
-    fclose(f);
   }
 
+  /* Do not leave an empty file, which would keep the next one from starting */
+  if(status != 0)
+    unlink(name);
+
   return(status);
 }
 
-- 
2.43.0


From 975430fd4d516f343c77e11027e142088b010e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:23 +0000
Subject: [PATCH 40/54] fix: the report that a client's soft limit was reached
 must not hide that products are turned away, nor be made for a client that
 was sent none

---
 src/appdata.c | 18 ++++++++++++------
 src/appdata.h |  5 +++--
 src/serverm.c | 10 ++++++++--
 3 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/appdata.c b/src/appdata.c
index 80d3042..2fdf32b 100644
--- a/src/appdata.c
+++ b/src/appdata.c
@@ -13,7 +13,8 @@
 
 struct appdata_st {
   int protocol;
-  time_t qlimit_log_last;
+  time_t qsoftlimit_log_last;
+  time_t qhardlimit_log_last;
 };
 
 static int set_client_protocol(struct conn_table_st *ct, int i, int protocol);
@@ -112,7 +113,8 @@ static int set_client_protocol(struct conn_table_st *ct, int i, int protocol){
     return(-1);
 
   p->protocol = protocol;
-  p->qlimit_log_last = 0;
+  p->qsoftlimit_log_last = 0;
+  p->qhardlimit_log_last = 0;
   conn_table_set_element_appdata(ct, i, p, free_appdata_st);
 
   return(status);
@@ -136,7 +138,8 @@ static void free_appdata_st(void *p){
     free(p);
 }
 
-int set_client_qlimit_log_last(struct conn_element_st *ce, time_t unixsecs){
+int set_client_qlimit_log_last(struct conn_element_st *ce, int f_hard,
+			       time_t unixsecs){
 
   struct appdata_st *p;
 
@@ -148,12 +151,15 @@ int set_client_qlimit_log_last(struct conn_element_st *ce, time_t unixsecs){
     return(1);
   }
 
-  p->qlimit_log_last = unixsecs;
+  if(f_hard)
+    p->qhardlimit_log_last = unixsecs;
+  else
+    p->qsoftlimit_log_last = unixsecs;
 
   return(0);
 }
 
-time_t get_client_qlimit_log_last(struct conn_element_st *ce){
+time_t get_client_qlimit_log_last(struct conn_element_st *ce, int f_hard){
 
   struct appdata_st *p;
 
@@ -165,5 +171,5 @@ time_t get_client_qlimit_log_last(struct conn_element_st *ce){
     return(0);
   }
 
-  return(p->qlimit_log_last);
+  return(f_hard ? p->qhardlimit_log_last : p->qsoftlimit_log_last);
 }
diff --git a/src/appdata.h b/src/appdata.h
index 0cc7f37..2d683c5 100644
--- a/src/appdata.h
+++ b/src/appdata.h
@@ -20,7 +20,8 @@ int ident_client_protocol(struct conn_table_st *ct, int i,
 int get_client_protocol(struct conn_table_st *ct, int i);
 int get_client_protocol_byce(struct conn_element_st *ce);
 
-int set_client_qlimit_log_last(struct conn_element_st *ce, time_t unixsecs);
-time_t get_client_qlimit_log_last(struct conn_element_st *ce);
+int set_client_qlimit_log_last(struct conn_element_st *ce, int f_hard,
+			       time_t unixsecs);
+time_t get_client_qlimit_log_last(struct conn_element_st *ce, int f_hard);
 
 #endif
diff --git a/src/serverm.c b/src/serverm.c
index e5ad294..970214f 100644
--- a/src/serverm.c
+++ b/src/serverm.c
@@ -871,6 +871,7 @@ static int server_send_client_queues(struct packet_info_st *packetinfo){
 		  i, nameorip);
     }
 
+    status = 0;		/* nothing is queued if there is no emwin file */
     if((protocol == PROTOCOL_EMWIN) && (status1 == 0)){
       status = connqueue_snd(g.ct->ce[i].cq,
 			     &emwinqueueinfo, emwinqueueinfo_size, &dberror);
@@ -890,10 +891,15 @@ static int server_send_client_queues(struct packet_info_st *packetinfo){
     if(status == -1)
       log_err2_db("Error writing to client queue", nameorip, dberror);
     else if(status != 0){
+      /*
+       * Each limit is reported once in each period. The report that
+       * the soft limit was reached does not tell that products are not
+       * being queued.
+       */
       now = time(NULL);
-      last = get_client_qlimit_log_last(&g.ct->ce[i]);
+      last = get_client_qlimit_log_last(&g.ct->ce[i], (status == 2));
       if((now < last) || (now > last + g.server_clientqlimit_logperiod_secs)){
-	set_client_qlimit_log_last(&g.ct->ce[i], now);
+	set_client_qlimit_log_last(&g.ct->ce[i], (status == 2), now);
 
 	if(status == 1)
 	  log_info("Soft limit reached for client thread %d [%s].",
-- 
2.43.0


From 720321b18391fc149d81869b140b8a328e7a63da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:39 +0000
Subject: [PATCH 41/54] fix: the hard limit of the processor queue must hold
 also when more products than that were already waiting

---
 src/pctldb.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pctldb.c b/src/pctldb.c
index a022220..1f4647b 100644
--- a/src/pctldb.c
+++ b/src/pctldb.c
@@ -427,7 +427,7 @@ static int pctldb_hard_limit(struct pctldb_st *pctldb, uint32_t mf_size){
   }
 
   if(pctldb->hardlimit > 0){
-    if(pctldb->n == pctldb->hardlimit)
+    if(pctldb->n >= pctldb->hardlimit)
       return(1);
   }
 
-- 
2.43.0


From 95dff11ac243863fe854a00b322c8ce657a449dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:14 +0000
Subject: [PATCH 42/54] fix: the option strings are still used by the exit
 cleanup when they are released

---
 src/init.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/init.c b/src/init.c
index 87e2d51..e077942 100644
--- a/src/init.c
+++ b/src/init.c
@@ -289,7 +289,6 @@ void cleanup(void){
   close_queues();
   close_mspool();
 
-  release_confoptions();
   free_nbsp_regex();
 
   cleanup_files();
@@ -298,6 +297,11 @@ void cleanup(void){
 
   log_info("Stopped.");
   (void)exec_stopscript();
+
+  /*
+   * The option strings (pidfile, stopscript, ...) are used above.
+   */
+  release_confoptions();
 }
 
 void cleanup_files(void){
-- 
2.43.0


From cbbd1111095b5be13aeee345dbcc8a0a974fdafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:34 +0000
Subject: [PATCH 43/54] fix: counts made while the status report was being
 written were lost, and ignored retransmissions counted as processed

---
 src/nbsp.c  |   5 +-
 src/stats.c | 130 +++++++++++++++++++++++++++++++++++++---------------
 2 files changed, 98 insertions(+), 37 deletions(-)

diff --git a/src/nbsp.c b/src/nbsp.c
index 108e730..bcee65a 100644
--- a/src/nbsp.c
+++ b/src/nbsp.c
@@ -386,7 +386,10 @@ static int process_pctl_element(struct pctl_element_st *pce){
       orig_prod_status = -1;	/* same as not in db */
 
     update_stats_products_retransmitted_c();
-    update_stats_products_retransmitted_pi(orig_prod_status);
+    if((orig_prod_status == -2) && (g.rtxdb_default_process == 0))
+      update_stats_products_retransmitted_pi(0);	/* ignored below */
+    else
+      update_stats_products_retransmitted_pi(orig_prod_status);
     log_rtx(pce);
 
     if(orig_prod_status == 0){
diff --git a/src/stats.c b/src/stats.c
index 400b7e3..16e17a1 100644
--- a/src/stats.c
+++ b/src/stats.c
@@ -6,12 +6,28 @@
  * $Id$
  */
 #include <stdio.h>
+#include <pthread.h>
 #include "err.h"
 #include "stats.h"
 #include "globals.h"
 #include "defaults.h"
 
+/*
+ * The counters are updated by the reader and processor threads while the
+ * main thread reports them.
+ */
+static pthread_mutex_t gstats_mutex = PTHREAD_MUTEX_INITIALIZER;
+
+#define INCREMENT(counter, n)			\
+  do{						\
+    (void)pthread_mutex_lock(&gstats_mutex);	\
+    counter += (n);				\
+    (void)pthread_mutex_unlock(&gstats_mutex);	\
+  }while(0)
+
 static void init_counters(void);
+static void subtract_counters(struct nbsp_stats_st *reported);
+static int report_counters(char *fname, struct nbsp_stats_st *stats);
 static void update_stats_goodframes(void);
 static void update_stats_badframes(void);
 static void update_stats_badproducts(void);
@@ -44,8 +60,32 @@ static void init_counters(void){
   g.nbspstats.products_rejected = 0;
 };
 
+static void subtract_counters(struct nbsp_stats_st *reported){
+  /*
+   * Removes only what has been reported; the other threads may have
+   * counted more while the report was being written.
+   */
+  g.nbspstats.frames_processed -= reported->frames_processed;
+  g.nbspstats.frames_jumps -= reported->frames_jumps;
+  g.nbspstats.frames_bad -= reported->frames_bad;
+  g.nbspstats.frames_received -= reported->frames_received;
+  g.nbspstats.frames_data_size -= reported->frames_data_size;
+  g.nbspstats.products_transmitted -= reported->products_transmitted;
+  g.nbspstats.products_retransmitted -= reported->products_retransmitted;
+  g.nbspstats.products_retransmitted_c -= reported->products_retransmitted_c;
+  g.nbspstats.products_retransmitted_p -= reported->products_retransmitted_p;
+  g.nbspstats.products_retransmitted_i -= reported->products_retransmitted_i;
+  g.nbspstats.products_retransmitted_r -= reported->products_retransmitted_r;
+  g.nbspstats.products_completed -= reported->products_completed;
+  g.nbspstats.products_missed -= reported->products_missed;
+  g.nbspstats.products_bad -= reported->products_bad;
+  g.nbspstats.products_aborted -= reported->products_aborted;
+  g.nbspstats.products_rejected -= reported->products_rejected;
+}
+
 void nbspstats_update(void){
 
+  struct nbsp_stats_st stats;
   time_t now;
   
   now = time(NULL);
@@ -58,48 +98,66 @@ void nbspstats_update(void){
    *    return;
    */
 
+  (void)pthread_mutex_lock(&gstats_mutex);
   update_stats_rtx_index();
   g.nbspstats.time = now;
-  nbspstats_report(g.statusfile);
-  init_counters();  /* does not clear rtx_index */
+  stats = g.nbspstats;
+  (void)pthread_mutex_unlock(&gstats_mutex);
+
+  /*
+   * If the report could not be written, the next one includes the counts.
+   */
+  if(report_counters(g.statusfile, &stats) != 0)
+    return;
+
+  (void)pthread_mutex_lock(&gstats_mutex);
+  subtract_counters(&stats);  /* does not clear rtx_index */
+  (void)pthread_mutex_unlock(&gstats_mutex);
 }
 
 void nbspstats_report(char *fname){
 
+  (void)report_counters(fname, &g.nbspstats);
+}
+
+static int report_counters(char *fname, struct nbsp_stats_st *stats){
+
   FILE *f;
 
   f = fopen(fname, "a");
   if(f == NULL){
     log_err2("Could not open", fname);
-    return;
+    return(-1);
   }
 
   fprintf(f, "%ju %u %u %u %u %u %u %u %u %u %u %u %u %u %u %u %u\n",
-	  (uintmax_t)g.nbspstats.time,
-	  g.nbspstats.frames_received,
-	  g.nbspstats.frames_processed,
-	  g.nbspstats.frames_jumps,
-	  g.nbspstats.frames_bad,
-	  g.nbspstats.frames_data_size,
-	  g.nbspstats.products_transmitted,
-	  g.nbspstats.products_completed,
-	  g.nbspstats.products_missed,
-	  g.nbspstats.products_retransmitted,
-	  g.nbspstats.products_retransmitted_c,
-	  g.nbspstats.products_retransmitted_p,
-	  g.nbspstats.products_retransmitted_i,
-	  g.nbspstats.products_retransmitted_r,
-	  g.nbspstats.products_rejected,
-	  g.nbspstats.products_aborted,
-	  g.nbspstats.products_bad);
+	  (uintmax_t)stats->time,
+	  stats->frames_received,
+	  stats->frames_processed,
+	  stats->frames_jumps,
+	  stats->frames_bad,
+	  stats->frames_data_size,
+	  stats->products_transmitted,
+	  stats->products_completed,
+	  stats->products_missed,
+	  stats->products_retransmitted,
+	  stats->products_retransmitted_c,
+	  stats->products_retransmitted_p,
+	  stats->products_retransmitted_i,
+	  stats->products_retransmitted_r,
+	  stats->products_rejected,
+	  stats->products_aborted,
+	  stats->products_bad);
 
   fclose(f);
+
+  return(0);
 }
 
 void update_stats_frames_received(unsigned int frame_data_size){
 
-  ++g.nbspstats.frames_received;
-  g.nbspstats.frames_data_size += frame_data_size;
+  INCREMENT(g.nbspstats.frames_received, 1);
+  INCREMENT(g.nbspstats.frames_data_size, frame_data_size);
 }
 
 void update_stats_frames(int status){
@@ -115,7 +173,7 @@ void update_stats_frames(int status){
 
 void update_stats_frames_jumps(void){
 
-  ++g.nbspstats.frames_jumps;
+  INCREMENT(g.nbspstats.frames_jumps, 1);
 }
 
 void update_stats_products(int status){
@@ -126,7 +184,7 @@ void update_stats_products(int status){
 
 void update_stats_products_transmitted(void){
 
-  ++g.nbspstats.products_transmitted;
+  INCREMENT(g.nbspstats.products_transmitted, 1);
 }
 
 void update_stats_products_retransmitted(void){
@@ -135,14 +193,14 @@ void update_stats_products_retransmitted(void){
    * flag set. This number is increased indepdendently of whether the
    * entire product is received or not.
    */
-  ++g.nbspstats.products_retransmitted;
+  INCREMENT(g.nbspstats.products_retransmitted, 1);
 }
 
 void update_stats_products_retransmitted_c(void){
   /*
    * This number is increased only if the entire product is received.
    */
-  ++g.nbspstats.products_retransmitted_c;
+  INCREMENT(g.nbspstats.products_retransmitted_c, 1);
 }
 
 void update_stats_products_retransmitted_pi(int orig_status){
@@ -154,9 +212,9 @@ void update_stats_products_retransmitted_pi(int orig_status){
    */
 
   if(orig_status == 0)
-    ++g.nbspstats.products_retransmitted_i;
+    INCREMENT(g.nbspstats.products_retransmitted_i, 1);
   else
-    ++g.nbspstats.products_retransmitted_p;
+    INCREMENT(g.nbspstats.products_retransmitted_p, 1);
 }
 
 void update_stats_products_recovered(void){
@@ -164,44 +222,44 @@ void update_stats_products_recovered(void){
    * This is the number of retransmitted products that were able
    * to recover a missing one due missing frames.
    */
-  ++g.nbspstats.products_retransmitted_r;
+  INCREMENT(g.nbspstats.products_retransmitted_r, 1);
 }
 
 void update_stats_products_missed(void){
 
-  ++g.nbspstats.products_missed;
+  INCREMENT(g.nbspstats.products_missed, 1);
 }
 
 void update_stats_products_completed(void){
   /*
    * All frames received.
    */
-  ++g.nbspstats.products_completed;
+  INCREMENT(g.nbspstats.products_completed, 1);
 }
 
 void update_stats_products_aborted(void){
 
-  ++g.nbspstats.products_aborted;
+  INCREMENT(g.nbspstats.products_aborted, 1);
 }
 
 void update_stats_products_rejected(void){
 
-  ++g.nbspstats.products_rejected;
+  INCREMENT(g.nbspstats.products_rejected, 1);
 }
     
 static void update_stats_goodframes(void){
 
-  ++g.nbspstats.frames_processed;
+  INCREMENT(g.nbspstats.frames_processed, 1);
 }
 
 static void update_stats_badframes(void){
 
-  ++g.nbspstats.frames_bad;
+  INCREMENT(g.nbspstats.frames_bad, 1);
 }
 
 static void update_stats_badproducts(void){
 
-  ++g.nbspstats.products_bad;
+  INCREMENT(g.nbspstats.products_bad, 1);
 }
 
 static void update_stats_rtx_index(void){
-- 
2.43.0


From b2af25bbfc07ac4dd29d9a1a94c8e9f19486d493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:46 +0000
Subject: [PATCH 44/54] fix: the memory and cache spools kept the CCB when
 configured to save without it

---
 src/nbsp.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/nbsp.c b/src/nbsp.c
index bcee65a..98061fe 100644
--- a/src/nbsp.c
+++ b/src/nbsp.c
@@ -887,16 +887,20 @@ static int nbsp_spooldb_insert(char *fpath){
 static int pce_savembdb_memfile(struct pctl_element_st *pce,
 			       struct memfile_st *mf){
   int status;
+  char *data;
   size_t size;
 
+  data = (char*)mf->p;
   size = mf->size;
   if((pce->save_format == SAVEFORMAT_NO_CCB) && (pce->f_has_ccb == 1)){
     if(size <= CCB_SIZE)
       return(1);
-    else
+    else{
+      data += CCB_SIZE;
       size -= CCB_SIZE;
+    }
   }
-  status = nbsp_mspoolbdb_insert(pce->fpath, mf->p, mf->size);
+  status = nbsp_mspoolbdb_insert(pce->fpath, data, size);
   
   return(status);
 }
@@ -904,16 +908,20 @@ static int pce_savembdb_memfile(struct pctl_element_st *pce,
 static int pce_savecbdb_memfile(struct pctl_element_st *pce,
 			       struct memfile_st *mf){
   int status;
+  char *data;
   size_t size;
 
+  data = (char*)mf->p;
   size = mf->size;
   if((pce->save_format == SAVEFORMAT_NO_CCB) && (pce->f_has_ccb == 1)){
     if(size <= CCB_SIZE)
       return(1);
-    else
+    else{
+      data += CCB_SIZE;
       size -= CCB_SIZE;
+    }
   }
-  status = nbsp_cspoolbdb_insert(pce->fpath, mf->p, mf->size);
+  status = nbsp_cspoolbdb_insert(pce->fpath, data, size);
   
   return(status);
 }
-- 
2.43.0


From f83e60069d92258dc14a6dc8fd1fddfeb63f34c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:46 +0000
Subject: [PATCH 45/54] fix: a product larger than the memory spool allows must
 not empty the whole spool

---
 src/libspoolbdb/spoolbdbv.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libspoolbdb/spoolbdbv.c b/src/libspoolbdb/spoolbdbv.c
index 07ef98d..2187cb1 100644
--- a/src/libspoolbdb/spoolbdbv.c
+++ b/src/libspoolbdb/spoolbdbv.c
@@ -440,10 +440,11 @@ int spoolbdbv_write2_unlocked(struct spoolbdbv_st *spoolbdbv,
 
   /*
    * If the data does not fit in one db there is nothing to do but
-   * report it and let the application drop it eventually.
+   * report it and let the application drop it. (Truncating, as done for
+   * ENOMEM, would not help.)
    */
   if(datasize > spoolbdbv->maxsize)
-    return(ENOMEM);
+    return(EFBIG);
 
   /*
    * If the data fits in the remaining space of the current db it is
-- 
2.43.0


From be0e31dd649da667faa12fe8815a6dee0f253221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:46 +0000
Subject: [PATCH 46/54] fix: a client thread cancelled while waiting for a
 memory spool slot left the spool locked

---
 src/libspoolbdb/spoolslots.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/libspoolbdb/spoolslots.c b/src/libspoolbdb/spoolslots.c
index b1b98ec..ce6c638 100644
--- a/src/libspoolbdb/spoolslots.c
+++ b/src/libspoolbdb/spoolslots.c
@@ -15,6 +15,13 @@ static int _spoolbuf_slots_open_unlocked(struct spoolbuf_slots_st *spoolslots,
 					 char *fkey, int *sd,
 					 int f_read_unlocked);
 
+static void spoolbuf_slots_unlock(void *arg);
+
+static void spoolbuf_slots_unlock(void *arg){
+
+  (void)pthread_mutex_unlock((pthread_mutex_t*)arg);
+}
+
 struct spoolbuf_slots_st *spoolbuf_slots_create(int N){
 
   int status = 0;
@@ -118,9 +125,15 @@ int spoolbuf_slots_open(struct spoolbuf_slots_st *spoolslots,
   if(status != 0)
     return(status);
 
+  /* The thread can be cancelled while waiting for a slot */
+  pthread_cleanup_push(spoolbuf_slots_unlock, &spoolslots->mutex);
+
   while((spoolslots->numslots == spoolslots->maxslots) && (status == 0)){
     status = pthread_cond_wait(&spoolslots->cond, &spoolslots->mutex);
   }
+
+  pthread_cleanup_pop(0);
+
   if(status != 0){
     pthread_mutex_unlock(&spoolslots->mutex);
     return(status);
-- 
2.43.0


From b2e5b489f478799cb7dff0630c167589069101de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:23 +0000
Subject: [PATCH 47/54] fix: a failed lookup in the memory spool lost the
 wakeup of the thread waiting for the slot

---
 src/libspoolbdb/spoolslots.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libspoolbdb/spoolslots.c b/src/libspoolbdb/spoolslots.c
index ce6c638..6353e1d 100644
--- a/src/libspoolbdb/spoolslots.c
+++ b/src/libspoolbdb/spoolslots.c
@@ -146,6 +146,13 @@ int spoolbuf_slots_open(struct spoolbuf_slots_st *spoolslots,
    */
   status = _spoolbuf_slots_open_unlocked(spoolslots, spooldb, fkey, sd, 0);
 
+  /*
+   * The slot was not taken; if this thread was the one awakened when
+   * it became available, let another one that is waiting for it go on.
+   */
+  if(status != 0)
+    (void)pthread_cond_signal(&spoolslots->cond);
+
   status1 = pthread_mutex_unlock(&spoolslots->mutex);
   if(status == 0)
     status = status1;
-- 
2.43.0


From e71d04f3d7acf82b6172df63cb4d0ef2fd2314ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:30 +0000
Subject: [PATCH 48/54] fix: one unreadable entry in the filter directory must
 not make the rest ignored, nor stop the daemon

---
 src/filters.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/filters.c b/src/filters.c
index 3088237..3927cc6 100644
--- a/src/filters.c
+++ b/src/filters.c
@@ -756,8 +756,14 @@ static int process_dir_entry(char *dir, char *name){
     }else if(S_ISREG(sb.st_mode) && ((sb.st_mode & S_IXUSR) != 0)){
       status = add_filter_entry(path, FILTER_TYPE_PIPE);
     }
-  }else
+  }else{
+    /*
+     * It was removed in the meantime, or it is a link to nowhere; that is
+     * not a reason to ignore the rest.
+     */
     log_err2("Could not get info for", path);
+    status = 0;
+  }
 
   free(path);
 
-- 
2.43.0


From a0cb3cc6dd71a4659db90f8690b2e961de032d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:16:03 +0000
Subject: [PATCH 49/54] fix: a stop request was ignored while the server
 filters could not be reloaded

---
 src/serverm.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/serverm.c b/src/serverm.c
index 970214f..e1e738d 100644
--- a/src/serverm.c
+++ b/src/serverm.c
@@ -244,12 +244,13 @@ static int server_loop(void){
     if(get_reload_server_filters_flag()){
       close_server_filters();
       status = open_server_filters();
-      while(status != 0){
+      while((status != 0) && (get_quit_flag() == 0)){
 	log_errx("%s", "Error reloading server filter. Will try again.");
 	sleep(SERVER_RELOAD_FILTER_ERROR_SLEEP_SECS);
 	status = open_server_filters();
       }
-      log_info("%s", "Server filters reloaded.");
+      if(status == 0)
+	log_info("%s", "Server filters reloaded.");
     }
   }
     
-- 
2.43.0


From f5a996eb8c883949eea7c3eabd14085cc066e80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:52 +0000
Subject: [PATCH 50/54] fix: a failed allocation while splitting an option
 crashed the daemon

---
 src/strsplit.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/strsplit.c b/src/strsplit.c
index ec1017b..3d2926d 100644
--- a/src/strsplit.c
+++ b/src/strsplit.c
@@ -61,7 +61,8 @@ struct strsplit_st *strsplit_recreate(char *s, char *delim, int flags,
     new_strp = strsplit_init(n, s);
   }
 
-  strsplit(new_strp, delim, flags);
+  if(new_strp != NULL)
+    strsplit(new_strp, delim, flags);
 
   return(new_strp);
 }
-- 
2.43.0


From 66fd5e877b33343b6e76fc651a6dc31b17e0ee89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:52 +0000
Subject: [PATCH 51/54] fix: the table of slaves was freed twice when an
 element could not be configured

---
 src/slavet.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/slavet.c b/src/slavet.c
index 5ed4c84..bc2b661 100644
--- a/src/slavet.c
+++ b/src/slavet.c
@@ -197,6 +197,7 @@ static int slave_element_configure2(struct slave_element_st *slave,
     if((slave->masterport = malloc(strlen(masterport) + 1)) == NULL){
       log_err("Cannot allocate memory for slave->masterport.");
       free(slave->mastername);
+      slave->mastername = NULL;
       return(-1);
     }
 
@@ -230,14 +231,24 @@ static int slave_element_configure2(struct slave_element_st *slave,
 
 static void slave_element_release(struct slave_element_st *slave){
   
-  if(slave->mastername != NULL)
+  /*
+   * The table is released again by slave_table_destroy() if the
+   * configuration of one of its elements fails.
+   */
+  if(slave->mastername != NULL){
     free(slave->mastername);
+    slave->mastername = NULL;
+  }
 
-  if(slave->masterport != NULL)
+  if(slave->masterport != NULL){
     free(slave->masterport);
+    slave->masterport = NULL;
+  }
 
-  if(slave->infifo != NULL)
+  if(slave->infifo != NULL){
     free(slave->infifo);
+    slave->infifo = NULL;
+  }
 
   slave_element_release_options(slave);
 }
@@ -252,6 +263,7 @@ static int slave_element_configure_options(struct slave_element_st *slave,
   slave->options.slavestatsfile = malloc(strlen(options->slavestatsfile) + 1);
   if(slave->options.slavestatsfile == NULL){
     free(slave->options.infifo_grp);
+    slave->options.infifo_grp = NULL;
     return(-1);
   }
 
-- 
2.43.0


From 833ee9a22cbb7e9fc8788c9a9ab6d96a8a0370b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:52 +0000
Subject: [PATCH 52/54] fix: a failure to open the control list database
 crashed the daemon

---
 src/pctldb.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/pctldb.c b/src/pctldb.c
index 1f4647b..516d235 100644
--- a/src/pctldb.c
+++ b/src/pctldb.c
@@ -96,7 +96,7 @@ int pctldb_open(struct pctldb_st **pctldb,
     status = pctlmfdb_stat(p, dberror);
 
   if(status != 0){
-    if(p->mfdbp != NULL)
+    if((p != NULL) && (p->mfdbp != NULL))
       pctlmfdb_close(p, &dberror_close);	/* error ignored here if any */
 
     if(dbp != NULL)
@@ -104,9 +104,6 @@ int pctldb_open(struct pctldb_st **pctldb,
 
     if(p != NULL)
       free(p);
-
-    *dberror = status;
-    status = -1;
   }
 
   if(status == 0)
-- 
2.43.0


From ff2394dea7542c6c276fcf99fdf8cc74c3e05824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:39 +0000
Subject: [PATCH 53/54] fix: a failed allocation for the queue table crashed
 the daemon

---
 src/nbspq.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nbspq.c b/src/nbspq.c
index 62fb235..e6b58b1 100644
--- a/src/nbspq.c
+++ b/src/nbspq.c
@@ -69,7 +69,7 @@ int init_nbspq(void){
     status = -1;
     qerrno = errno;
   }
-  for(i = 0; i < g.queue_numchannels; ++i){
+  for(i = 0; (status == 0) && (i < g.queue_numchannels); ++i){
     qstate[i].current = 0;
     qstate[i].last = 0;
   }
-- 
2.43.0


From d6125aee87eed30d922851747e8eb5ab396cf9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:04 +0000
Subject: [PATCH 54/54] fix: a failed allocation for the slave configuration
 ended the start without a message

---
 src/slave.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/slave.c b/src/slave.c
index a75be55..a9a8d8f 100644
--- a/src/slave.c
+++ b/src/slave.c
@@ -117,8 +117,10 @@ int init_slavet(void){
 
   if(feedmode_inputfifo_enabled()){
     conf_str = slave_make_configuration_string();
-    if(conf_str == NULL)
+    if(conf_str == NULL){
+      log_err("Cannot create the slave configuration.");
       return(-1);
+    }
 
     status = slave_table_create(&slavet, conf_str, &defaults);
     free(conf_str);
-- 
2.43.0

