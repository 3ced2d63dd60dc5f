From e20cafa0146e7f45c19e710a6559a78560dfaf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:00 +0000
Subject: [PATCH 01/23] fix: wrap _Exit in statically linked programs

main.c defines an override for _Exit but the list of symbols that
monitor-link wraps did not contain it, so a static program that ends
with _Exit got no process-exit callbacks.
---
 configure    | 2 +-
 configure.ac | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/configure b/configure
index d61e8a1..8681949 100755
--- a/configure
+++ b/configure
@@ -13210,7 +13210,7 @@ ac_link='$CC -o conftest$ac_exeext $CFLAGS $CPPFLAGS $LDFLAGS conftest.$ac_ext $
 ac_compiler_gnu=$ac_cv_c_compiler_gnu
 
 
-wrap_list="main exit _exit"
+wrap_list="main exit _exit _Exit"
 
 
 #------------------------------------------------------------
diff --git a/configure.ac b/configure.ac
index 48a5592..a0b7ec1 100644
--- a/configure.ac
+++ b/configure.ac
@@ -71,7 +71,7 @@ AC_CANONICAL_HOST
 
 AC_LANG([C])
 
-AC_SUBST([wrap_list], ["main exit _exit"])
+AC_SUBST([wrap_list], ["main exit _exit _Exit"])
 
 #------------------------------------------------------------
 # SVN Revision
-- 
2.43.0


From e917414e70a0ff1e1a10696e39d56ce9c5145140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:33 +0000
Subject: [PATCH 02/23] fix: deliver fini-library only once if the callback
 calls _exit

The done flag was set after the callback returned, so a client that
calls _exit() (or gets a fatal signal) inside monitor_fini_library()
got the callback again, without end.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 34f6708..8061052 100644
--- a/src/main.c
+++ b/src/main.c
@@ -243,9 +243,9 @@ monitor_end_library_fcn(void)
     if (monitor_fini_library_called)
 	return;
 
+    monitor_fini_library_called = 1;
     MONITOR_DEBUG1("calling monitor_fini_library() ...\n");
     monitor_fini_library();
-    monitor_fini_library_called = 1;
 }
 
 /*
-- 
2.43.0


From fdecae7ed48e89204ce4f32b510844ba7a14d897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:28 +0000
Subject: [PATCH 03/23] fix: reset the exit state in the child of fork

If the parent had begun process exit when it forked (in an exit
handler, a callback or another thread), then the child kept the exit
cookie and the exit cleanup flags: it got init-process but no
fini-process, its new threads never ran, and it could wait forever in
exit() for a thread that does not exist in the child.
---
 src/main.c    | 2 ++
 src/pthread.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/main.c b/src/main.c
index 8061052..c7cf792 100644
--- a/src/main.c
+++ b/src/main.c
@@ -267,6 +267,8 @@ monitor_begin_process_fcn(void *user_data, int is_fork)
 	 */
 	monitor_reset_thread_list(&monitor_main_tn);
 	monitor_main_tn.tn_user_data = user_data;
+	monitor_main_tn.tn_exit_win = 0;
+	monitor_end_process_cookie = 0;
     }
     else if (val) {
 	/* If already called, then skip the init process callback.
diff --git a/src/pthread.c b/src/pthread.c
index 41a8a72..4c90081 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -355,6 +355,8 @@ monitor_reset_thread_list(struct monitor_thread_node *main_tn)
     if ((*real_pthread_key_delete)(monitor_pthread_key) != 0) {
 	MONITOR_WARN1("pthread_key_delete failed\n");
     }	
+    monitor_in_exit_cleanup = 0;
+    monitor_fini_thread_done = 0;
     monitor_has_used_threads = 0;
 }
 
-- 
2.43.0


From f51ab0c5e9e4295718c4468b16b7eca64423bda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:28 +0000
Subject: [PATCH 04/23] fix: release the thread list lock in the child of fork

If another thread held the lock at the time of the fork, then the
first pthread_create() in the child would spin forever.
---
 src/pthread.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pthread.c b/src/pthread.c
index 4c90081..3e5d191 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -347,8 +347,10 @@ monitor_reset_thread_list(struct monitor_thread_node *main_tn)
     /*
      * Free the thread list and the pthread key.  Technically, this
      * could leak memory, but only if the process spawns more than 150
-     * threads before fork()ing.
+     * threads before fork()ing.  Another thread may have held the lock
+     * at the time of the fork, and that thread is gone.
      */
+    MONITOR_THREAD_UNLOCK;
     LIST_INIT(&monitor_thread_list);
     LIST_INIT(&monitor_free_list);
     monitor_tn_array_pos = 0;
-- 
2.43.0


From 321f2168286a2804c544b393375914d989fe7a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:28 +0000
Subject: [PATCH 05/23] fix: no fini-thread in a forked child for the parent's
 thread

If a side thread forks and then ends in the child, its cleanup handler
still used the thread node from the parent: the client got fini-thread
for a thread that does not exist in the child (or for another thread,
if the node was in use again), and the thread list was corrupted.
---
 src/pthread.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pthread.c b/src/pthread.c
index 3e5d191..3120225 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -919,6 +919,10 @@ monitor_pthread_cleanup_routine(void *arg)
 		      "bad magic in thread node\n");
 	return;
     }
+    if (tn != monitor_get_tn()) {
+	/* The thread forked and is now the main thread of the child. */
+	return;
+    }
     if (!tn->tn_appl_started || tn->tn_fini_started || tn->tn_block_shootdown) {
 	/* fini-thread has already run, or else we don't want it to run. */
 	return;
-- 
2.43.0


From 6fb26ba4e9137684e9dc34b46b19edb7e0d6a99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:15 +0000
Subject: [PATCH 06/23] fix: do not overrun the path buffer for a long PATH
 element

execvp() and execlp() with a PATH element longer than PATH_MAX only
logged the fact and then overran the stack buffer.
---
 src/fork.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/fork.c b/src/fork.c
index a8a7260..6170439 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -277,12 +277,14 @@ monitor_is_executable(const char *file)
 	    MONITOR_DEBUG("path length %d exceeds PATH_MAX %d\n",
 			  path_len + file_len + 2, PATH_MAX);
 	}
-	memcpy(buf, path, path_len);
-	buf[path_len] = SLASH;
-	memcpy(&buf[path_len + 1], file, file_len);
-	buf[path_len + 1 + file_len] = 0;
-	if (access(buf, X_OK) == 0)
-	    return (1);
+	else {
+	    memcpy(buf, path, path_len);
+	    buf[path_len] = SLASH;
+	    memcpy(&buf[path_len + 1], file, file_len);
+	    buf[path_len + 1 + file_len] = 0;
+	    if (access(buf, X_OK) == 0)
+		return (1);
+	}
 	path += path_len;
 	path += strspn(path, COLON);
     }
-- 
2.43.0


From d92cd0578fff4112e7210743e21be4dfee912f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:15 +0000
Subject: [PATCH 07/23] fix: execvp without PATH in the environment

monitor_is_executable() dereferenced a NULL pointer if PATH is unset.
---
 src/fork.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fork.c b/src/fork.c
index 6170439..f38fc65 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -251,6 +251,7 @@ monitor_copy_va_args(char ***argv, char ***envp,
  */
 #define COLON  ":"
 #define SLASH  '/'
+#define MONITOR_DEFAULT_PATH  "/bin:/usr/bin"
 static int
 monitor_is_executable(const char *file)
 {
@@ -270,6 +271,10 @@ monitor_is_executable(const char *file)
 
     file_len = strlen(file);
     path = getenv("PATH");
+    if (path == NULL) {
+	/* The same default as the real execvp(). */
+	path = MONITOR_DEFAULT_PATH;
+    }
     path += strspn(path, COLON);
     while (*path != 0) {
 	path_len = strcspn(path, COLON);
-- 
2.43.0


From 6c782dec06333ee96ca2cd848ebe5313c364ec07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:15 +0000
Subject: [PATCH 08/23] fix: search the current directory for an empty PATH
 element

The real execvp() treats an empty element of PATH as the current
directory, so such an exec succeeded without the exit callbacks.
---
 src/fork.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/fork.c b/src/fork.c
index f38fc65..5884777 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -275,13 +275,17 @@ monitor_is_executable(const char *file)
 	/* The same default as the real execvp(). */
 	path = MONITOR_DEFAULT_PATH;
     }
-    path += strspn(path, COLON);
-    while (*path != 0) {
+    for (;;) {
 	path_len = strcspn(path, COLON);
 	if (path_len + file_len + 2 > PATH_MAX) {
 	    MONITOR_DEBUG("path length %d exceeds PATH_MAX %d\n",
 			  path_len + file_len + 2, PATH_MAX);
 	}
+	else if (path_len == 0) {
+	    /* An empty element means the current directory. */
+	    if (access(file, X_OK) == 0)
+		return (1);
+	}
 	else {
 	    memcpy(buf, path, path_len);
 	    buf[path_len] = SLASH;
@@ -291,7 +295,9 @@ monitor_is_executable(const char *file)
 		return (1);
 	}
 	path += path_len;
-	path += strspn(path, COLON);
+	if (*path == 0)
+	    break;
+	path++;
     }
 
     return (0);
-- 
2.43.0


From 773fe8e5e47937b1bad008a89f98f18cf2a97538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:15 +0000
Subject: [PATCH 09/23] fix: execvp of an empty file name never succeeds

The prediction tested the PATH directories themselves and delivered
the exit callbacks, although the real execvp() fails with ENOENT.
---
 src/fork.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fork.c b/src/fork.c
index 5884777..5824854 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -270,6 +270,8 @@ monitor_is_executable(const char *file)
 	return (access(file, X_OK) == 0);
 
     file_len = strlen(file);
+    if (file_len == 0)
+	return (0);
     path = getenv("PATH");
     if (path == NULL) {
 	/* The same default as the real execvp(). */
-- 
2.43.0


From 2699935859ea452700f175482052a30e65e3d73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:34 +0000
Subject: [PATCH 10/23] fix: remove only the LD_PRELOAD variable from the
 client's environment

The client's execve and system dropped every variable that had
LD_PRELOAD anywhere in its name or value.
---
 src/fork.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fork.c b/src/fork.c
index 5824854..d5e78f2 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -188,7 +188,7 @@ monitor_copy_environ(char *const oldenv[])
     /* Copy old environ and omit LD_PRELOAD. */
     n = 0;
     for (k = 0; oldenv[k] != NULL; k++) {
-	if (strstr(oldenv[k], "LD_PRELOAD") == NULL) {
+	if (strncmp(oldenv[k], "LD_PRELOAD=", 11) != 0) {
 	    newenv[n] = oldenv[k];
 	    n++;
 	}
-- 
2.43.0


From 2dcccf84fa6683a4745e6d5585830caff239473c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:31 +0000
Subject: [PATCH 11/23] fix: use the real dlopen and dlclose to look up symbols

The fallback scan of loaded objects called our own overrides: the client
got callbacks for calls the application never made, and looking up the
real dlopen itself recursed without end.
---
 src/common.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/common.c b/src/common.c
index 43f2ace..f158d71 100644
--- a/src/common.c
+++ b/src/common.c
@@ -45,6 +45,8 @@
 
 struct callback_data {
     const char* symbol;
+    void *(*real_dlopen)(const char *, int);
+    int (*real_dlclose)(void *);
     bool skip;
     void *skip_until_base;
     void *result;
@@ -61,8 +63,9 @@ static int phdr_callback(struct dl_phdr_info *info, size_t sz, void *data_v) {
         return 0;
     }
 
-    // Call dlopen to stabilize a handle for our use
-    void *this = dlopen(info->dlpi_name, RTLD_LAZY | RTLD_NOLOAD | RTLD_LOCAL);
+    // Call dlopen to stabilize a handle for our use. This must be the real
+    // function, our override would deliver callbacks to the client.
+    void *this = data->real_dlopen(info->dlpi_name, RTLD_LAZY | RTLD_NOLOAD | RTLD_LOCAL);
     if (this == NULL) {
         MONITOR_DEBUG("dlopen failed on object: %s\n", info->dlpi_name);
         return 0;
@@ -71,7 +74,7 @@ static int phdr_callback(struct dl_phdr_info *info, size_t sz, void *data_v) {
     // Poke it and see if we can find the symbol we want. Stop if we found it,
     // otherwise continue the scan.
     data->result = dlsym(this, data->symbol);
-    dlclose(this);
+    data->real_dlclose(this);
     return data->result == NULL ? 0 : 1;
 }
 
@@ -87,11 +90,17 @@ void *monitor_dlsym(const char *symbol) {
 
         struct callback_data cb_data = {
             .symbol = symbol,
+            .real_dlopen = dlsym(RTLD_NEXT, "dlopen"),
+            .real_dlclose = dlsym(RTLD_NEXT, "dlclose"),
             .skip = true,
             .skip_until_base = NULL,
             .result = NULL,
         };
 
+        if (cb_data.real_dlopen == NULL || cb_data.real_dlclose == NULL) {
+            MONITOR_ERROR1("dlsym failed to find dlopen and dlclose\n");
+        }
+
         // Identify ourselves, using our base address
         Dl_info dli;
         if (dladdr(&monitor_dlsym, &dli) == 0) {
-- 
2.43.0


From f9c0a99af0d95520c498aef252c6dc5d236ef0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:29 +0000
Subject: [PATCH 12/23] fix: pass the pre-create data to the thread post-create
 callback

By the time the creator gets there, the new thread may have replaced the
data in its node, or finished and released the node.
---
 src/pthread.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pthread.c b/src/pthread.c
index 3120225..6275dbf 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -1174,7 +1174,7 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
 
     MONITOR_DEBUG("calling monitor_thread_post_create(start_routine = %p) ...\n",
 		  start_routine);
-    monitor_thread_post_create(tn->tn_user_data);
+    monitor_thread_post_create(user_data);
 
     /* The thread info struct's lifetime ends here. */
     if (my_tn != NULL) {
-- 
2.43.0


From 47c64f8bf10870e17467a8bea7710024be91e810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:48 +0000
Subject: [PATCH 13/23] fix: deliver fini-thread only once if the shootdown
 signal interrupts a thread's end

---
 src/pthread.c   | 26 +++++++++++++++-----------
 src/pthread_h.h |  2 +-
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/pthread.c b/src/pthread.c
index 6275dbf..84afd91 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -470,11 +470,12 @@ monitor_shootdown_handler(int sig)
     }
 
     (*real_pthread_setcancelstate)(PTHREAD_CANCEL_DISABLE, &old_state);
-    tn->tn_fini_started = 1;
-    MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
-		  tn->tn_user_data, tn->tn_tid);
-    monitor_fini_thread(tn->tn_user_data);
-    tn->tn_fini_done = 1;
+    if (compare_and_swap(&tn->tn_fini_started, 0, 1) == 0) {
+	MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
+		      tn->tn_user_data, tn->tn_tid);
+	monitor_fini_thread(tn->tn_user_data);
+	tn->tn_fini_done = 1;
+    }
     (*real_pthread_setcancelstate)(old_state, NULL);
 }
 
@@ -933,7 +934,9 @@ monitor_pthread_cleanup_routine(void *arg)
 	return;
     }
 
-    tn->tn_fini_started = 1;
+    /* The shootdown signal may arrive between the test above and here. */
+    if (compare_and_swap(&tn->tn_fini_started, 0, 1) != 0)
+	return;
     MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
 		  tn->tn_user_data, tn->tn_tid);
     monitor_fini_thread(tn->tn_user_data);
@@ -1270,11 +1273,12 @@ monitor_sigwait_helper(const sigset_t *set, int sig, int sigwait_errno,
 	&& !tn->tn_block_shootdown)
     {
 	(*real_pthread_setcancelstate)(PTHREAD_CANCEL_DISABLE, &old_state);
-	tn->tn_fini_started = 1;
-	MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
-		      tn->tn_user_data, tn->tn_tid);
-	monitor_fini_thread(tn->tn_user_data);
-	tn->tn_fini_done = 1;
+	if (compare_and_swap(&tn->tn_fini_started, 0, 1) == 0) {
+	    MONITOR_DEBUG("calling monitor_fini_thread(data = %p), tid = %d ...\n",
+			  tn->tn_user_data, tn->tn_tid);
+	    monitor_fini_thread(tn->tn_user_data);
+	    tn->tn_fini_done = 1;
+	}
 	(*real_pthread_setcancelstate)(old_state, NULL);
 
 	return 1;
diff --git a/src/pthread_h.h b/src/pthread_h.h
index c749593..58e4016 100644
--- a/src/pthread_h.h
+++ b/src/pthread_h.h
@@ -66,7 +66,7 @@ struct monitor_thread_node {
     char   tn_is_main;
     char   tn_ignore_threads;
     volatile char  tn_appl_started;
-    volatile char  tn_fini_started;
+    volatile long  tn_fini_started;
     volatile char  tn_fini_done;
     volatile char  tn_exit_win;
     volatile char  tn_block_shootdown;
-- 
2.43.0


From b21dac2a19b813540a5b89b1ebd89d801299d96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:04 +0000
Subject: [PATCH 14/23] fix: new-thread info no longer outlives pthread_create
 for ignored threads

---
 src/pthread.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pthread.c b/src/pthread.c
index 84afd91..5249eda 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -1072,6 +1072,7 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
     struct monitor_thread_node *tn, *my_tn;
     struct monitor_thread_info mti;
     pthread_attr_t default_attr;
+    void *old_info = NULL;
     int ret, restore, destroy;
     size_t old_size;
 
@@ -1092,13 +1093,15 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
     /*
      * Create a thread info struct for pthread_create() callback
      * function.  Note: this info is only available during the
-     * lifetime of the pthread_create() override.
+     * lifetime of the pthread_create() override.  A callback function
+     * may itself call pthread_create().
      */
     mti.mti_create_return_addr = __builtin_return_address(0);
     mti.mti_start_routine = (void *) start_routine;
 
     my_tn = monitor_get_tn();
     if (my_tn != NULL) {
+	old_info = my_tn->tn_thread_info;
 	my_tn->tn_thread_info = &mti;
     }
 
@@ -1115,6 +1118,9 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
      */
     if (my_tn == NULL || my_tn->tn_ignore_threads) {
 	MONITOR_DEBUG("launching ignored thread: start = %p\n", start_routine);
+	if (my_tn != NULL) {
+	    my_tn->tn_thread_info = old_info;
+	}
 	return (*real_pthread_create)(thread, attr, start_routine, arg);
     }
 
@@ -1142,6 +1148,7 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
      */
     if (user_data == MONITOR_IGNORE_NEW_THREAD) {
 	MONITOR_DEBUG("launching ignored thread: start = %p\n", start_routine);
+	my_tn->tn_thread_info = old_info;
 	return (*real_pthread_create)(thread, attr, start_routine, arg);
     }
 
@@ -1181,7 +1188,7 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
 
     /* The thread info struct's lifetime ends here. */
     if (my_tn != NULL) {
-        my_tn->tn_thread_info = NULL;
+        my_tn->tn_thread_info = old_info;
     }
 
     return (ret);
-- 
2.43.0


From c61f007ef2f0a2d36d5fd644c7b38175b50a66f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:24 +0000
Subject: [PATCH 15/23] fix: keep settings of the main thread made before early
 init

---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index c7cf792..4ac3c9e 100644
--- a/src/main.c
+++ b/src/main.c
@@ -176,7 +176,7 @@ monitor_early_init(void)
     }
     MONITOR_DEBUG1("\n");
 
-    memset(&monitor_main_tn, 0, sizeof(struct monitor_thread_node));
+    /* Keep what the client has already set, the rest begins as 0. */
     monitor_main_tn.tn_magic = MONITOR_TN_MAGIC;
     monitor_main_tn.tn_tid = 0;
     monitor_main_tn.tn_is_main = 1;
-- 
2.43.0


From 4edc4a0a743e8d4393282e68ec655d9c3872d764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:17 +0000
Subject: [PATCH 16/23] fix: do not leak the thread node if pthread_create
 fails

---
 src/pthread.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/pthread.c b/src/pthread.c
index 5249eda..0e66803 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -403,6 +403,19 @@ monitor_make_thread_node(void)
     return (tn);
 }
 
+/*
+ *  Return a thread node to the free list, if the thread was never
+ *  created.
+ */
+static void
+monitor_free_thread_node(struct monitor_thread_node *tn)
+{
+    MONITOR_THREAD_LOCK;
+    memset(tn, 0, sizeof(struct monitor_thread_node));
+    LIST_INSERT_HEAD(&monitor_free_list, tn, tn_links);
+    MONITOR_THREAD_UNLOCK;
+}
+
 /*
  *  Returns: 0 on success, or 1 if at exit cleanup and thus we don't
  *  allow any new threads.
@@ -1180,6 +1193,7 @@ MONITOR_WRAP_NAME(pthread_create)(PTHREAD_CREATE_PARAM_LIST)
     if (ret != 0) {
 	MONITOR_DEBUG("real_pthread_create failed: start_routine = %p, ret = %d\n",
 		      start_routine, ret);
+	monitor_free_thread_node(tn);
     }
 
     MONITOR_DEBUG("calling monitor_thread_post_create(start_routine = %p) ...\n",
-- 
2.43.0


From fca5b97c607bcbd56bcaf4006375163532fb75f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:17 +0000
Subject: [PATCH 17/23] fix: an ended thread no longer refers to its recycled
 thread node

---
 src/pthread.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pthread.c b/src/pthread.c
index 0e66803..3d35a54 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -448,6 +448,8 @@ monitor_unlink_thread_node(struct monitor_thread_node *tn)
 	tn->tn_fini_started = 1;
 	tn->tn_fini_done = 1;
     } else {
+	/* The node may soon belong to another thread. */
+	(*real_pthread_setspecific)(monitor_pthread_key, NULL);
 	LIST_REMOVE(tn, tn_links);
 	memset(tn, 0, sizeof(struct monitor_thread_node));
 	LIST_INSERT_HEAD(&monitor_free_list, tn, tn_links);
-- 
2.43.0


From 3fe86b2098ca534d704a958b207bc2304560c734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:17 +0000
Subject: [PATCH 18/23] fix: unlink a thread that ends without fini-thread

---
 src/pthread.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pthread.c b/src/pthread.c
index 3d35a54..102d064 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -941,6 +941,7 @@ monitor_pthread_cleanup_routine(void *arg)
     }
     if (!tn->tn_appl_started || tn->tn_fini_started || tn->tn_block_shootdown) {
 	/* fini-thread has already run, or else we don't want it to run. */
+	monitor_unlink_thread_node(tn);
 	return;
     }
     if (monitor_fini_thread_done) {
-- 
2.43.0


From 52c563d7a76471cbed4a9477b2b4e47b76d94727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:17 +0000
Subject: [PATCH 19/23] fix: broadcast during exit signals the main thread only
 once

---
 src/pthread.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pthread.c b/src/pthread.c
index 102d064..9e05413 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -798,7 +798,7 @@ monitor_broadcast_signal(int sig)
 	 tn != NULL;
 	 tn = LIST_NEXT(tn, tn_links)) {
 
-	if (!PTHREAD_EQUAL(self, tn->tn_self) &&
+	if (!PTHREAD_EQUAL(self, tn->tn_self) && !tn->tn_is_main &&
 	    tn->tn_appl_started && !tn->tn_fini_started) {
 	    (*real_pthread_kill)(tn->tn_self, sig);
 	}
-- 
2.43.0


From 78424c2243f4a05d7d6a7d86dbef8206823f0602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:20 +0000
Subject: [PATCH 20/23] fix: SIGSEGV, SIGBUS or SIGILL sent by kill or raise
 terminates the process

---
 src/signal.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/signal.c b/src/signal.c
index cfebacd..5cb67fe 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -257,8 +257,11 @@ monitor_signal_handler(int sig, siginfo_t *info, void *context)
 	sigemptyset(&action.sa_mask);
 	(*real_sigaction)(sig, &action, NULL);
 	(*real_sigprocmask)(SIG_SETMASK, &action.sa_mask, NULL);
-	if (mse->mse_noraise) {
-	    /* For segv, etc, we just return. */
+	if (mse->mse_noraise && info != NULL && info->si_code > 0) {
+	    /*
+	     * For segv, etc, raised by a fault, we just return.  If sent
+	     * by kill() or raise(), then nothing would fault again.
+	     */
 	    return;
 	}
 	raise(sig);
-- 
2.43.0


From b56aeb01a78811a65687711292e209469e315f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:44 +0000
Subject: [PATCH 21/23] fix: do not accept a signal reserved by libc as the
 shootdown signal

---
 src/signal.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/signal.c b/src/signal.c
index 5cb67fe..f5e528e 100644
--- a/src/signal.c
+++ b/src/signal.c
@@ -286,7 +286,7 @@ void
 monitor_signal_init(void)
 {
     struct monitor_signal_entry *mse;
-    struct sigaction *sa;
+    struct sigaction *sa, query_act;
     char buf[MONITOR_SIG_BUF_SIZE];
     int num_avoid, num_valid, num_invalid;
     int i, sig, ret;
@@ -315,6 +315,16 @@ monitor_signal_init(void)
 	}
     }
 
+    /*
+     * Signals reserved by libc or the kernel are not available for
+     * shootdown.
+     */
+    for (sig = 1; sig < MONITOR_NSIG; sig++) {
+	if ((*real_sigaction)(sig, NULL, &query_act) != 0) {
+	    monitor_signal_array[sig].mse_invalid = 1;
+	}
+    }
+
     monitor_choose_shootdown_early();
     monitor_signal_array[shootdown_signal].mse_keep_open = 1;
 
-- 
2.43.0


From c6d8fa468dab31d200a28aa689d5b199c6ba41ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:35 +0000
Subject: [PATCH 22/23] fix: static library without signal support does not
 need __real_sigaction

---
 src/fork.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fork.c b/src/fork.c
index d5e78f2..3524afd 100644
--- a/src/fork.c
+++ b/src/fork.c
@@ -94,8 +94,10 @@ extern fork_fcn_t    __real_fork;
 extern execv_fcn_t   __real_execv;
 extern execv_fcn_t   __real_execvp;
 extern execve_fcn_t  __real_execve;
+#ifdef MONITOR_USE_SIGNALS
 extern sigaction_fcn_t    __real_sigaction;
 extern sigprocmask_fcn_t  __real_sigprocmask;
+#endif
 extern system_fcn_t       __real_system;
 #endif
 
@@ -131,8 +133,13 @@ monitor_fork_init(void)
     MONITOR_GET_REAL_NAME_WRAP(real_execv, execv);
     MONITOR_GET_REAL_NAME_WRAP(real_execvp, execvp);
     MONITOR_GET_REAL_NAME_WRAP(real_execve, execve);
+#ifdef MONITOR_USE_SIGNALS
     MONITOR_GET_REAL_NAME_WRAP(real_sigaction, sigaction);
     MONITOR_GET_REAL_NAME_WRAP(real_sigprocmask, sigprocmask);
+#else
+    MONITOR_GET_REAL_NAME(real_sigaction, sigaction);
+    MONITOR_GET_REAL_NAME(real_sigprocmask, sigprocmask);
+#endif
     MONITOR_GET_REAL_NAME_WRAP(real_system, system);
 
     override_system = (getenv(NO_SYSTEM_OVERRIDE) == NULL);
-- 
2.43.0


From c5d450e45912d08be31966acc4fef6d03484f69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:28 +0000
Subject: [PATCH 23/23] fix: pthread support without signal support has a
 shootdown signal

---
 src/pthread.c | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/pthread.c b/src/pthread.c
index 9e05413..3697cb9 100644
--- a/src/pthread.c
+++ b/src/pthread.c
@@ -524,6 +524,32 @@ monitor_thread_release(void)
 }
 #endif
 
+#ifndef MONITOR_USE_SIGNALS
+/*
+ *  Without signal support, there is no signal.c: use a fixed shootdown
+ *  signal, and there are no client handlers for sigwait().
+ */
+int
+monitor_shootdown_signal(void)
+{
+    int sig = MONITOR_CONFIG_SHOOTDOWN_SIGNAL;
+
+    if (sig > 0)
+	return (sig);
+#ifdef SIGRTMIN
+    return (SIGRTMIN + 8);
+#else
+    return (SIGWINCH);
+#endif
+}
+
+int
+monitor_sigwait_handler(int sig, siginfo_t *info, void *context)
+{
+    return (1);
+}
+#endif
+
 /*
  *  Called from main.c at end process time for possible thread cleanup.
  *  Note: main doesn't know if application is threaded or not.
-- 
2.43.0

