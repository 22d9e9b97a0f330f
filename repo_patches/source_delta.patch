From 83c816d9c2513dcd06c713d3769812848a60df5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 01/43] fix: UDPNAR reasoner thread could read its timestep
 from a dead stack frame

---
 src/NetworkNAR/UDPNAR.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/NetworkNAR/UDPNAR.c b/src/NetworkNAR/UDPNAR.c
index f1b927d..baf39c6 100755
--- a/src/NetworkNAR/UDPNAR.c
+++ b/src/NetworkNAR/UDPNAR.c
@@ -77,14 +77,16 @@ void* Receive_Thread_Run(void *sockfd_address)
 pthread_t thread_reasoner, thread_receiver;
 bool Started = false;
 int receiver_sockfd; 
+long reasoner_timestep; //outlives UDPNAR_Start, as the reasoner thread reads it after having signalled its start
 void UDPNAR_Start(char *ip, int port, long timestep)
 {
     assert(!Stopped, "UDPNAR was already started!");
     Shell_NARInit();
     receiver_sockfd = UDP_INIT_Receiver(ip, port);
     //Create reasoner thread and wait for its creation
+    reasoner_timestep = timestep;
     pthread_mutex_lock(&start_mutex);
-    pthread_create(&thread_reasoner, NULL, Reasoner_Thread_Run, &timestep);
+    pthread_create(&thread_reasoner, NULL, Reasoner_Thread_Run, &reasoner_timestep);
     pthread_cond_wait(&start_cond, &start_mutex);
     pthread_mutex_unlock(&start_mutex);
     //Create receive thread and wait for its creation
-- 
2.43.0


From 35aad89071b2b8e84c3b3f4edf10db179ed328f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 02/43] fix: UDPNAR processed stale bytes after unterminated
 datagrams and failed receives

---
 src/NetworkNAR/UDP.c    | 6 ++++--
 src/NetworkNAR/UDP.h    | 5 +++--
 src/NetworkNAR/UDPNAR.c | 6 +++++-
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/NetworkNAR/UDP.c b/src/NetworkNAR/UDP.c
index 70c3749..6a92d8e 100755
--- a/src/NetworkNAR/UDP.c
+++ b/src/NetworkNAR/UDP.c
@@ -41,12 +41,14 @@ int UDP_INIT_Sender()
     return socket(PF_INET, SOCK_DGRAM, 0);
 }
 
-void UDP_ReceiveData(int sockfd, char *buffer, int buffersize)
+int UDP_ReceiveData(int sockfd, char *buffer, int buffersize)
 {
     struct sockaddr_in address_other;
     socklen_t addr_size = sizeof(address_other);
-    recvfrom(sockfd, buffer, buffersize, 0, (struct sockaddr*)& address_other, &addr_size);
+    int received = (int) recvfrom(sockfd, buffer, buffersize-1, 0, (struct sockaddr*)& address_other, &addr_size);
+    buffer[received > 0 ? received : 0] = 0;
     IN_DEBUG( printf("//UDP Data received: %s\n", buffer); )
+    return received;
 }
 
 void UDP_SendData(int sockfd, char *ip, int port, char *buffer, int buffersize)
diff --git a/src/NetworkNAR/UDP.h b/src/NetworkNAR/UDP.h
index f254f98..2db7626 100755
--- a/src/NetworkNAR/UDP.h
+++ b/src/NetworkNAR/UDP.h
@@ -47,8 +47,9 @@
 int UDP_INIT_Receiver(char *ip, int port);
 //Inits an UDP send socket, returns a socketfd
 int UDP_INIT_Sender();
-//Receives data from socket into buffer, up to buffersize bytes
-void UDP_ReceiveData(int sockfd, char *buffer, int buffersize);
+//Receives one datagram from socket into buffer as zero-terminated string, truncated to buffersize-1 bytes
+//returns the amount of received bytes, or a negative number if nothing was received (the buffer is an empty string then)
+int UDP_ReceiveData(int sockfd, char *buffer, int buffersize);
 //Sends buffer content to target using the socket
 void UDP_SendData(int sockfd, char *ip, int port, char *buffer, int buffersize);
 
diff --git a/src/NetworkNAR/UDPNAR.c b/src/NetworkNAR/UDPNAR.c
index baf39c6..8697e86 100755
--- a/src/NetworkNAR/UDPNAR.c
+++ b/src/NetworkNAR/UDPNAR.c
@@ -58,11 +58,15 @@ void* Receive_Thread_Run(void *sockfd_address)
     for(;;)
     {
         char buffer[NARSESE_LEN_MAX];
-        UDP_ReceiveData(sockfd, buffer, NARSESE_LEN_MAX);
+        int received = UDP_ReceiveData(sockfd, buffer, NARSESE_LEN_MAX);
         if(Stopped) //avoids problematic buffer states due to socket shutdown, most portable solution!
         {
             break;
         }
+        if(received < 0) //nothing arrived (such as an interrupted call), so there is nothing to process
+        {
+            continue;
+        }
         pthread_mutex_lock(&nar_mutex);
         int cmd = Shell_ProcessInput(buffer);
         if(cmd == SHELL_RESET) //reset?
-- 
2.43.0


From 5191f95790a52d8920f1cf470c1fe6a116ea0a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 03/43] fix: UDPNAR did not pause between cycles for timesteps
 of a second or more

---
 src/NetworkNAR/UDPNAR.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NetworkNAR/UDPNAR.c b/src/NetworkNAR/UDPNAR.c
index 8697e86..243c44e 100755
--- a/src/NetworkNAR/UDPNAR.c
+++ b/src/NetworkNAR/UDPNAR.c
@@ -43,7 +43,7 @@ void* Reasoner_Thread_Run(void* timestep_address)
         pthread_mutex_unlock(&nar_mutex);
         if(timestep >= 0)
         {
-            nanosleep((struct timespec[]){{0, timestep}}, NULL); //POSIX sleep for timestep nanoseconds
+            nanosleep((struct timespec[]){{timestep / 1000000000L, timestep % 1000000000L}}, NULL); //POSIX sleep for timestep nanoseconds
         }
     }
     return NULL;
-- 
2.43.0


From 9acd777bc2ed59218eeef6ef7a297bd933514103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 04/43] fix: metrics leaked a socket per cycle when the socket
 descriptor was 0

---
 src/NetworkNAR/Metric.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/NetworkNAR/Metric.c b/src/NetworkNAR/Metric.c
index 334511c..4969908 100755
--- a/src/NetworkNAR/Metric.c
+++ b/src/NetworkNAR/Metric.c
@@ -34,12 +34,12 @@
 
 #include "Metric.h"
 
-static int graphite_sockfd = 0;
+static int graphite_sockfd = -1;
 
 void Metric_send( const char* path, int value)
 {
     char message[GRAPHITE_MAX_MSG_LEN] = {0};
-    if(graphite_sockfd == 0)
+    if(graphite_sockfd < 0)
     {
         graphite_sockfd = UDP_INIT_Sender();
     }
-- 
2.43.0


From 0505134ae24aaa1292e5a28c11796d8bbbeaf233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 05/43] fix: division by zero in reasoning and statistics at
 time 0

---
 src/Cycle.c | 2 +-
 src/Stats.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Cycle.c b/src/Cycle.c
index 2d2f300..9f14e3a 100755
--- a/src/Cycle.c
+++ b/src/Cycle.c
@@ -705,7 +705,7 @@ void Cycle_Inference(long currentTime)
             long countConceptsMatchedNew = 0;
             //Adjust dynamic firing threshold: (proportional "self"-control)
             double conceptPriorityThresholdCurrent = conceptPriorityThreshold;
-            long countConceptsMatchedAverage = Stats_countConceptsMatchedTotal / currentTime;
+            long countConceptsMatchedAverage = Stats_countConceptsMatchedTotal / MAX(1, currentTime);
             double set_point = BELIEF_CONCEPT_MATCH_TARGET;
             double process_value = countConceptsMatchedAverage; 
             double error = process_value - set_point;
diff --git a/src/Stats.c b/src/Stats.c
index 529ae3d..29e4e2a 100755
--- a/src/Stats.c
+++ b/src/Stats.c
@@ -60,7 +60,7 @@ void Stats_Print(long currentTime)
     puts("Statistics\n----------");
     printf("countConceptsMatchedTotal:\t%ld\n", Stats_countConceptsMatchedTotal);
     printf("countConceptsMatchedMax:\t%ld\n", Stats_countConceptsMatchedMax);
-    long countConceptsMatchedAverage = Stats_countConceptsMatchedTotal / currentTime;
+    long countConceptsMatchedAverage = Stats_countConceptsMatchedTotal / MAX(1, currentTime);
     printf("countConceptsMatchedAverage:\t%ld\n", countConceptsMatchedAverage);
     printf("currentTime:\t\t\t%ld\n", currentTime);
     printf("total concepts:\t\t\t%d\n", concepts.itemsAmount);
-- 
2.43.0


From e1ba9f05f02e54495705509c5b4643cf77bcd5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 06/43] fix: division by zero when babbling with *babblingops=0

---
 src/Decision.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Decision.c b/src/Decision.c
index f06bee8..1254c00 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -277,7 +277,7 @@ static Decision Decision_MotorBabbling()
     {
         n_ops = i+1;
     }
-    if(n_ops > 0)
+    if(n_ops > 0 && BABBLING_OPS > 0)
     {
         decision.operationID[0] = 1+(myrand() % (MIN(BABBLING_OPS, n_ops)));
         IN_DEBUG (
-- 
2.43.0


From 4dd7155d717dd4b886977ba20e9a081444545a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 07/43] fix: implications of the last operation were missing in
 answers and in *concepts

---
 src/NAR.c   | 2 +-
 src/Shell.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/NAR.c b/src/NAR.c
index fd6051c..1d58e64 100755
--- a/src/NAR.c
+++ b/src/NAR.c
@@ -187,7 +187,7 @@ void NAR_AddInputNarsese2(char *narsese_sentence, bool queryCommand, double answ
             }
             if(isImplication)
             {
-                for(int op_k = 0; op_k<OPERATIONS_MAX; op_k++)
+                for(int op_k = 0; op_k<=OPERATIONS_MAX; op_k++)
                 {
                     for(int j=0; j<c->precondition_beliefs[op_k].itemsAmount; j++)
                     {
diff --git a/src/Shell.c b/src/Shell.c
index d362c30..8850efd 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -196,7 +196,7 @@ int Shell_ProcessInput(char *line)
                 {
                     Memory_printAddedEvent(&c->belief.stamp, &c->belief, 1, true, false, false, false, false);
                 }
-                for(int opi=0; opi<OPERATIONS_MAX; opi++)
+                for(int opi=0; opi<=OPERATIONS_MAX; opi++)
                 {
                     for(int h=0; h<c->precondition_beliefs[opi].itemsAmount; h++)
                     {
-- 
2.43.0


From a60912f2167c31c27e7546cde05a7105f36259a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 08/43] fix: *setopstdin wrote out of bounds for a wrong
 operator index

---
 src/Shell.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Shell.c b/src/Shell.c
index 8850efd..3b6b1ce 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -396,8 +396,9 @@ int Shell_ProcessInput(char *line)
         else
         if(!strncmp("*setopstdin ", line, strlen("*setopstdin ")))
         {
-            int opID;
+            int opID = 0;
             sscanf(&line[strlen("*setopstdin ")], "%d", &opID);
+            assert(opID >= 1 && opID <= OPERATIONS_MAX, "Operator index out of bounds, it can only be between 1 and OPERATIONS_MAX!");
             operations[opID - 1].stdinOutput = true;
         }
         else
-- 
2.43.0


From c1dbe2d60a1cbb77d27b9495c6a06cf961362d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:11 +0000
Subject: [PATCH 09/43] fix: *stampimport buffer overflow for malformed or
 overlong stamps

---
 src/Shell.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Shell.c b/src/Shell.c
index 3b6b1ce..b8374c1 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -267,6 +267,7 @@ int Shell_ProcessInput(char *line)
             char *end = strrchr(line, ']');
             // Extract the substring between the '[' and ']' characters
             char substr[1000];
+            assert(end != NULL && end - start - 1 < (long) sizeof(substr), "Stamp to import is too long or misses its closing bracket!");
             strncpy(substr, start + 1, end - start - 1);
             substr[end - start - 1] = '\0';
             // Tokenize the substring using ',' as the delimiter
-- 
2.43.0


From 916dde586d72d4987dde11c48b02435a2b4ede19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 10/43] fix: *setvalue buffer overflow for long names and
 values

---
 src/Shell.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Shell.c b/src/Shell.c
index b8374c1..1b66aeb 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -314,20 +314,22 @@ int Shell_ProcessInput(char *line)
             char termname_ext[ATOMIC_TERM_LEN_MAX+1] = {0};
             termname_ext[ATOMIC_TERM_LEN_MAX-1] = 0;
             const char* sep = termname[0] ? "_" : "";
+            int length = 0;
             if(granularity <= 10)
             {
-                sprintf(termname_ext, "%s%s%.1f", termname, sep, value);
+                length = snprintf(termname_ext, sizeof(termname_ext), "%s%s%.1f", termname, sep, value);
             }
             else
             if(granularity <= 100)
             {
-                sprintf(termname_ext, "%s%s%.2f", termname, sep, value);
+                length = snprintf(termname_ext, sizeof(termname_ext), "%s%s%.2f", termname, sep, value);
             }
             else
             if(granularity <= 1000)
             {
-                sprintf(termname_ext, "%s%s%.3f", termname, sep, value);
+                length = snprintf(termname_ext, sizeof(termname_ext), "%s%s%.3f", termname, sep, value);
             }
+            assert(length > 0 && length < (int) sizeof(termname_ext), "Value or name too long, increase ATOMIC_TERM_LEN_MAX!");
             Narsese_setAtomValue((Atom) Narsese_AtomicTermIndex(termname_ext), value, termname);
         }
         else
-- 
2.43.0


From ad50695313c5e52772c0c0240c0a914050439dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 11/43] fix: reset kept the pending stamp import and the match
 counters that control attention

---
 src/Cycle.c | 2 ++
 src/Event.c | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/Cycle.c b/src/Cycle.c
index 9f14e3a..947afd9 100755
--- a/src/Cycle.c
+++ b/src/Cycle.c
@@ -50,6 +50,8 @@ void Cycle_INIT()
     conceptProcessID = 0;
     conceptProcessID2 = 0;
     conceptProcessID3 = 0;
+    Stats_countConceptsMatchedTotal = 0;
+    Stats_countConceptsMatchedMax = 0;
 }
 
 //doing inference within the matched concept, returning whether decisionMaking should continue
diff --git a/src/Event.c b/src/Event.c
index e8b0f1f..69f0c9b 100755
--- a/src/Event.c
+++ b/src/Event.c
@@ -49,6 +49,7 @@ Event Event_InputEvent(Term term, char type, Truth truth, double occurrenceTimeO
 void Event_INIT()
 {
     base = 1;
+    importstamp = (Stamp) {0};
 }
 
 bool Event_Equal(Event *event, Event *existing)
-- 
2.43.0


From d4ebf65f26c0ea8c29c465d17d2022297915b3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 12/43] fix: UDPNAR ignored the parameter that turns off
 printing of derivations

---
 src/NetworkNAR/UDPNAR.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/NetworkNAR/UDPNAR.c b/src/NetworkNAR/UDPNAR.c
index 243c44e..0bec2aa 100755
--- a/src/NetworkNAR/UDPNAR.c
+++ b/src/NetworkNAR/UDPNAR.c
@@ -29,6 +29,14 @@ pthread_cond_t start_cond = PTHREAD_COND_INITIALIZER;
 pthread_mutex_t start_mutex = PTHREAD_MUTEX_INITIALIZER;
 pthread_mutex_t nar_mutex = PTHREAD_MUTEX_INITIALIZER;
 
+//Initializes the reasoner, keeping the choice whether derivations are printed
+static void UDPNAR_NARInit()
+{
+    bool printDerivations = PRINT_DERIVATIONS;
+    Shell_NARInit();
+    PRINT_DERIVATIONS = printDerivations;
+}
+
 void* Reasoner_Thread_Run(void* timestep_address)
 {
     pthread_mutex_lock(&start_mutex);
@@ -71,7 +79,7 @@ void* Receive_Thread_Run(void *sockfd_address)
         int cmd = Shell_ProcessInput(buffer);
         if(cmd == SHELL_RESET) //reset?
         {
-            Shell_NARInit();
+            UDPNAR_NARInit();
         }
         pthread_mutex_unlock(&nar_mutex);
     }
@@ -85,7 +93,7 @@ long reasoner_timestep; //outlives UDPNAR_Start, as the reasoner thread reads it
 void UDPNAR_Start(char *ip, int port, long timestep)
 {
     assert(!Stopped, "UDPNAR was already started!");
-    Shell_NARInit();
+    UDPNAR_NARInit();
     receiver_sockfd = UDP_INIT_Receiver(ip, port);
     //Create reasoner thread and wait for its creation
     reasoner_timestep = timestep;
-- 
2.43.0


From 1aea7a4bcde8101de6b926eecdff81c46581211d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 13/43] fix: implication stored in an unrelated concept when
 the source recycled the target concept

---
 src/Memory.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Memory.c b/src/Memory.c
index 47185b7..832061a 100755
--- a/src/Memory.c
+++ b/src/Memory.c
@@ -315,7 +315,7 @@ void Memory_ProcessNewBeliefEvent(Event *event, long currentTime, double priorit
                 sourceConceptTerm = subject;
             }
             Concept *source_concept = Memory_Conceptualize(&sourceConceptTerm, currentTime);
-            if(source_concept != NULL)
+            if(source_concept != NULL && Memory_FindConceptByTerm(&predicate) == target_concept) //conceptualizing the source can have recycled the target
             {
                 source_concept->usage = Usage_use(source_concept->usage, currentTime, eternalInput);
                 imp.sourceConceptId = source_concept->id;
-- 
2.43.0


From ec39d795b434f3f28ca81adaa11c270be4d29d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:21 +0000
Subject: [PATCH 14/43] fix: anticipation updated unrelated concepts after
 creating a predicted concept recycled the ones in use

---
 src/Decision.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Decision.c b/src/Decision.c
index 1254c00..6700320 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -559,6 +559,7 @@ void Decision_Anticipate(int operationID, Term opTerm, bool declarative, long cu
     for(int j=0; j<concepts.itemsAmount; j++)
     {
         Concept *postc = concepts.items[j].address;
+        long postc_id = postc->id;
         Implication valid_implications[TABLE_SIZE*2] = {0};
         int k=0;
         if(!declarative)
@@ -590,9 +591,13 @@ void Decision_Anticipate(int operationID, Term opTerm, bool declarative, long cu
                 valid_implications[k] = imp;
             }
         }
-        for(int h=0; h<k; h++)
+        for(int h=0; h<k && postc->id == postc_id; h++) //creating the concept of a prediction can have recycled postc
         {
             Implication imp = valid_implications[h]; //(&/,a,op) =/> b.
+            if(!Memory_ImplicationValid(&imp)) //or the source concept
+            {
+                continue;
+            }
             Concept *current_prec = imp.sourceConcept;
             Event *precondition = &current_prec->belief_spike;
             if(precondition != NULL && precondition->type != EVENT_TYPE_DELETED)
-- 
2.43.0


From e1245eeff5c55bf63bb9b3bb18f964042c5d9b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 15/43] fix: shell split input lines longer than 1023
 characters although Narsese up to NARSESE_LEN_MAX is supported

---
 src/Shell.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Shell.c b/src/Shell.c
index 1b66aeb..4b4a4ff 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -432,8 +432,8 @@ void Shell_Start()
     Shell_NARInit();
     for(;;)
     {
-        char line[1024] = {0};
-        if(fgets(line, 1024, stdin) == NULL)
+        char line[NARSESE_LEN_MAX+1] = {0};
+        if(fgets(line, sizeof(line), stdin) == NULL)
         {
             if(EXIT_STATS)
             {
-- 
2.43.0


From b9c3460eb7673c186065887bb4ee0ed0ee21bb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:11 +0000
Subject: [PATCH 16/43] fix: decisions were inhibited based on beliefs of
 unrelated concepts which took the place of a forgotten precondition

---
 src/Decision.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Decision.c b/src/Decision.c
index 6700320..511d8e5 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -318,6 +318,10 @@ static Decision Decision_ConsiderNegativeOutcomes(Decision decision)
             for(int j=0; j<c->precondition_beliefs[decision.operationID[0]].itemsAmount; j++)
             {
                 Implication imp = c->precondition_beliefs[decision.operationID[0]].array[j];
+                if(!Memory_ImplicationValid(&imp)) //the source concept was recycled, the belief found there is about something else
+                {
+                    continue;
+                }
                 Concept *prec = imp.sourceConcept;
                 if(prec->belief_spike.type != EVENT_TYPE_DELETED && currentTime - prec->belief_spike.occurrenceTime < EVENT_BELIEF_DISTANCE)
                 {
-- 
2.43.0


From f4e96a6df2fa9a1f2c5d03ad260f5cf11fae48f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 17/43] fix: the line break after an atomic operation result
 became part of the name of the result

---
 src/Decision.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Decision.c b/src/Decision.c
index 511d8e5..9dccd5f 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -228,6 +228,11 @@ void Decision_Execute(long currentTime, Decision *decision)
             {
                 return;
             }
+            line[strcspn(line, "\r\n")] = 0; //the line break is not part of an atomic result's name
+            if(!line[0])
+            {
+                return; //no result
+            }
             Term specific_args = Narsese_Term(line);
             Term argpart = Term_ExtractSubterm(&decision->arguments[i], 2);
             feedback.subs = Variable_Unify(&argpart, &specific_args);
-- 
2.43.0


From 7a3489eebafa037ddc6dd0dcabb18418f891e3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:43 +0000
Subject: [PATCH 18/43] fix: normalizing variables merged different variables
 of a term (inner loop ignored which were normalized already)

---
 src/Variable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Variable.c b/src/Variable.c
index 63172f6..6c01e11 100755
--- a/src/Variable.c
+++ b/src/Variable.c
@@ -446,7 +446,7 @@ void Variable_Normalize(Term *term)
             for(int k=j; k<COMPOUND_TERM_SIZE_MAX; k++)
             {
                 Atom atom2 = term->atoms[k];
-                if(atom == atom2)
+                if(!normalized[k] && atom == atom2)
                 {
                     term->atoms[k] = Narsese_AtomicTermIndex(varname);
                     normalized[k] = true;
-- 
2.43.0


From 7faa181af2d75365f7bcba4f8ae7f92b2e154918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 19/43] fix: a decision threshold of zero dereferenced the
 reason of a decision nothing was found for

---
 src/Decision.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Decision.c b/src/Decision.c
index 9dccd5f..ade3a31 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -549,7 +549,7 @@ Decision Decision_BestCandidate(Concept *goalconcept, Event *goal, long currentT
             }
         }
     }
-    if(decision.desire < DECISION_THRESHOLD)
+    if(decision.reason == NULL || decision.desire < DECISION_THRESHOLD)
     {
         return (Decision) {0}; 
     }
-- 
2.43.0


From eba3d421ae1d3b7190dd01310a54134c961fec09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:00 +0000
Subject: [PATCH 20/43] fix: do not abort on a precondition event later than
 now after the clock was set back

---
 src/Decision.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Decision.c b/src/Decision.c
index ade3a31..7d49a55 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -609,7 +609,7 @@ void Decision_Anticipate(int operationID, Term opTerm, bool declarative, long cu
             }
             Concept *current_prec = imp.sourceConcept;
             Event *precondition = &current_prec->belief_spike;
-            if(precondition != NULL && precondition->type != EVENT_TYPE_DELETED)
+            if(precondition != NULL && precondition->type != EVENT_TYPE_DELETED && precondition->occurrenceTime <= currentTime) //the clock can have been set back
             {
                 if(operationID > 0) //it's a real operation, check if the link's operation is the same
                 {
-- 
2.43.0


From aed2c61a828d278a4adc1cb07315bef61d94dd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:29 +0000
Subject: [PATCH 21/43] fix: revision of input more confident than the maximum
 aborted

---
 src/Truth.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Truth.c b/src/Truth.c
index 1c06343..3c32387 100755
--- a/src/Truth.c
+++ b/src/Truth.c
@@ -63,7 +63,7 @@ Truth Truth_Revision(Truth v1, Truth v2)
     }
     //else normal revision
     return (Truth) { .frequency = MIN(1.0, (w1 * f1 + w2 * f2) / w), 
-                     .confidence = MIN(MAX_CONFIDENCE, MAX(MAX(Truth_w2c(w), c1), c2)) };
+                     .confidence = MAX(MAX(MIN(MAX_CONFIDENCE, Truth_w2c(w)), c1), c2) }; //input confidence can exceed MAX_CONFIDENCE
 }
 
 Truth Truth_Deduction(Truth v1, Truth v2)
-- 
2.43.0


From eaf77ef641025c571b7f86cd3df59177cb182bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:17 +0000
Subject: [PATCH 22/43] fix: revision without any evidence on both sides
 divided by zero

---
 src/Truth.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Truth.c b/src/Truth.c
index 3c32387..3fcfc64 100755
--- a/src/Truth.c
+++ b/src/Truth.c
@@ -61,6 +61,11 @@ Truth Truth_Revision(Truth v1, Truth v2)
             return v2;
         }
     }
+    //without any evidence on both sides there is nothing to weigh the frequencies by
+    if(w == 0.0)
+    {
+        return v1;
+    }
     //else normal revision
     return (Truth) { .frequency = MIN(1.0, (w1 * f1 + w2 * f2) / w), 
                      .confidence = MAX(MAX(MIN(MAX_CONFIDENCE, Truth_w2c(w)), c1), c2) }; //input confidence can exceed MAX_CONFIDENCE
-- 
2.43.0


From d8a28e240b4c1f1475db997572345e8a8250eaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 23/43] fix: time offset of implications without evidence
 became not a number when revised

---
 src/Inference.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Inference.c b/src/Inference.c
index 9eb6c64..ac851ec 100755
--- a/src/Inference.c
+++ b/src/Inference.c
@@ -33,7 +33,7 @@
                 
 static double weighted_average(double a1, double a2, double w1, double w2)
 {
-    return (a1*w1+a2*w2)/(w1+w2);
+    return w1+w2 == 0.0 ? a1 : (a1*w1+a2*w2)/(w1+w2);
 }
                 
 //{Event a., Event b.} |- Event (&/,a,b).
-- 
2.43.0


From 51db5db38716f696fd4fd01c0d7818a9d1f2176e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:12 +0000
Subject: [PATCH 24/43] fix: knowledge revised with an implication of a
 forgotten concept belongs to the new concept

---
 src/Memory.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Memory.c b/src/Memory.c
index 832061a..2870e6a 100755
--- a/src/Memory.c
+++ b/src/Memory.c
@@ -324,6 +324,8 @@ void Memory_ProcessNewBeliefEvent(Event *event, long currentTime, double priorit
                 Implication *revised = Table_AddAndRevise(Narsese_copulaEquals(event->term.atoms[0], IMPLICATION) ? &target_concept->implication_links : &target_concept->precondition_beliefs[opi], &imp);
                 if(revised != NULL)
                 {
+                    revised->sourceConcept = source_concept; //the concept of the knowledge revised with can have been recycled
+                    revised->sourceConceptId = source_concept->id;
                     bool wasRevised = revised->truth.confidence > event->truth.confidence || revised->truth.confidence == MAX_CONFIDENCE;
                     Memory_printAddedImplication(&event->stamp, &event->term, &imp.truth, event->occurrenceTimeOffset, priority, input, false, true);
                     if(wasRevised)
-- 
2.43.0


From 7af1bf39c8d82d9d0f3042f3a17a4098511cda13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:20 +0000
Subject: [PATCH 25/43] fix: long time offsets of implications overflowed a
 buffer

---
 src/Narsese.c | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/src/Narsese.c b/src/Narsese.c
index 9ec4e67..334dc8e 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -378,23 +378,12 @@ void Narsese_Sentence(char *narsese, Term *destTerm, char *punctuation, int *ten
     assert(initialized, "Narsese not initialized, call Narsese_INIT first!");
     //Handle optional dt=num at beginning of line
     *occurrenceTimeOffset = 0.0;
-    char dt[30];
     if(narsese[0] == 'd' && narsese[1] == 't'  && narsese[2] == '=') //dt=
     {
-        for(unsigned int i=0; i<strlen(narsese); i++)
-        {
-            if(i>=3)
-            {
-                dt[i-3] = narsese[i];
-            }
-            if(narsese[i] == ' ')
-            {
-                dt[i] = 0;
-                narsese = &narsese[i];
-                break;
-            }
-        }
-        *occurrenceTimeOffset = atof(dt);
+        char *dt = &narsese[3], *dt_end;
+        *occurrenceTimeOffset = strtod(dt, &dt_end);
+        assert(dt_end != dt && *dt_end == ' ' && isfinite(*occurrenceTimeOffset), "Parsing error: dt= has to be followed by a number and a space!");
+        narsese = dt_end;
     }
     //Handle the rest of the Narsese:
     char narseseInplace[NARSESE_LEN_MAX] = {0};
-- 
2.43.0


From 6e955bf886e703d2a8b3f7dd5a7b7c71740b5517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:20 +0000
Subject: [PATCH 26/43] fix: incomplete truth values were read from
 uninitialized memory and truth values outside of [0,1] accepted

---
 src/Narsese.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Narsese.c b/src/Narsese.c
index 334dc8e..77a1e99 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -400,24 +400,24 @@ void Narsese_Sentence(char *narsese, Term *destTerm, char *punctuation, int *ten
         //scan for opening '{'
         int openingIdx;
         bool hasComma = false;
-        for(openingIdx=len-2; openingIdx>=0 && narseseInplace[openingIdx] != '{' && narseseInplace[openingIdx] != '%'; openingIdx--)
+        for(openingIdx=len-2; openingIdx>0 && narseseInplace[openingIdx] != '{' && narseseInplace[openingIdx] != '%'; openingIdx--)
         {
             hasComma = hasComma || narseseInplace[openingIdx] == ';';
         }
         assert(narseseInplace[openingIdx] == '{' || narseseInplace[openingIdx] == '%', "Parsing error: Truth value opener not found!");
-        double conf, freq;
+        double conf = NAR_DEFAULT_CONFIDENCE, freq;
         if(oldFormat && !hasComma)
         {
-            conf = NAR_DEFAULT_CONFIDENCE;
-            sscanf(&narseseInplace[openingIdx], "%%%lf%%", &freq);
+            assert(sscanf(&narseseInplace[openingIdx], "%%%lf%%", &freq) == 1, "Parsing error: Truth value has to be a number!");
         }
         else
         {
-            sscanf(&narseseInplace[openingIdx], oldFormat ? "%%%lf;%lf%%" : "{%lf %lf}", &freq, &conf);
+            assert(sscanf(&narseseInplace[openingIdx], oldFormat ? "%%%lf;%lf%%" : "{%lf %lf}", &freq, &conf) == 2, "Parsing error: Truth value has to consist of frequency and confidence!");
         }
+        assert(freq >= 0.0 && freq <= 1.0 && conf >= 0.0 && conf <= 1.0, "Parsing error: Truth value out of bounds!");
         destTv->frequency = freq;
         destTv->confidence = conf;
-        assert(narseseInplace[openingIdx-1] == ' ', "Parsing error: Space before truth value required!");
+        assert(openingIdx > 0 && narseseInplace[openingIdx-1] == ' ', "Parsing error: Space before truth value required!");
         narseseInplace[openingIdx-1] = 0; //cut it away for further parsing of term
     }
     //parse event marker, punctuation, and finally the term:
-- 
2.43.0


From d93728b178921d1340351b8974580f8156884a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:20 +0000
Subject: [PATCH 27/43] fix: sentences and operator arguments without a term
 crashed the parser

---
 src/Narsese.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Narsese.c b/src/Narsese.c
index 77a1e99..827f11c 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -367,6 +367,7 @@ Term Narsese_Term(char *narsese)
     char *narsese_expanded = Narsese_Expand(narsese);
     char** tokens_prefix = Narsese_PrefixTransform(narsese_expanded);
     int nt = 0; for(;tokens_prefix[nt] != NULL; nt++){}
+    assert(nt > 0, "Parsing error: Empty term!");
     buildBinaryTree(&ret, tokens_prefix, 0, 1, nt);
     Variable_Normalize(&ret);
     Term_Hash(&ret);
@@ -430,6 +431,7 @@ void Narsese_Sentence(char *narsese, Term *destTerm, char *punctuation, int *ten
     if(str_len >= 3 && narseseInplace[str_len-1] == ':' && narseseInplace[str_len-2] == '/' && narseseInplace[str_len-3] == ':')
         *tense = 3; 
     int punctuation_offset = *tense ? 5 : 1;
+    assert(str_len > punctuation_offset, "Parsing error: Narsese string too short!");
     *punctuation = narseseInplace[str_len-punctuation_offset];
     assert(*punctuation == '!' || *punctuation == '?' || *punctuation == '.', "Parsing error: Punctuation has to be belief . goal ! or question ?");
     narseseInplace[str_len-punctuation_offset] = 0; //we will only parse the term before it
-- 
2.43.0


From aca0592b88379952d20201adcdd2d170661d337e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:20 +0000
Subject: [PATCH 28/43] fix: compound terms nested too deeply were written out
 of bounds and incomplete ones crashed the parser

---
 src/Narsese.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Narsese.c b/src/Narsese.c
index 827f11c..1f45213 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -328,9 +328,11 @@ int Narsese_CopulaIndex(char name)
 //Encodes a binary tree in an array, based on the the S-expression tokenization with prefix order
 void buildBinaryTree(Term *bintree, char** tokens_prefix, int i1, int tree_index, int nt)
 {
+    assert(tree_index-1 < COMPOUND_TERM_SIZE_MAX, "COMPOUND_TERM_SIZE_MAX too small, consider increasing or split input into multiple statements!");
     if(tokens_prefix[i1][0] == '(' && tokens_prefix[i1][1] == 0)
     {
         int icop = i1+1;
+        assert(icop < nt, "Parsing error: Compound term is not complete!");
         //first argument is given by the copula
         i1 = i1+2;
         //second argument has to be searched for
@@ -347,7 +349,6 @@ void buildBinaryTree(Term *bintree, char** tokens_prefix, int i1, int tree_index
     }
     else
     {
-        assert(tree_index-1 < COMPOUND_TERM_SIZE_MAX, "COMPOUND_TERM_SIZE_MAX too small, consider increasing or split input into multiple statements!");
         if(!(tokens_prefix[i1][0] == ')' && tokens_prefix[i1][1] == 0))
         {
             bintree->atoms[tree_index-1] = Narsese_AtomicTermIndex(tokens_prefix[i1]);
-- 
2.43.0


From a820af4eaa924da8ae20e3206464f43578926207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:20 +0000
Subject: [PATCH 29/43] fix: a stamp ID which is not positive led to endless
 revision

---
 src/Shell.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Shell.c b/src/Shell.c
index 4b4a4ff..84abc99 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -256,7 +256,10 @@ int Shell_ProcessInput(char *line)
         else
         if(!strncmp("*stampid=", line, strlen("*stampid=")))
         {
-            sscanf(&line[strlen("*stampid=")], "%ld", &base);
+            long stampid = 0;
+            sscanf(&line[strlen("*stampid=")], "%ld", &stampid);
+            assert(stampid >= 1, "Stamp ID has to be positive!");
+            base = stampid;
         }
         else
         if(!strncmp("*stampimport=[", line, strlen("*stampimport=[")))
-- 
2.43.0


From 4e7fb5e2e9320436fddb11c8af7f3ce00b9fd8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:20 +0000
Subject: [PATCH 30/43] fix: missing numbers in commands were read from
 uninitialized memory

---
 src/Shell.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Shell.c b/src/Shell.c
index 84abc99..339902d 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -338,7 +338,7 @@ int Shell_ProcessInput(char *line)
         else
         if(!strncmp("*space ", line, strlen("*space ")))
         {
-            int granularity;
+            int granularity = -1;
             char termname[ATOMIC_TERM_LEN_MAX+1] = {0};
             termname[ATOMIC_TERM_LEN_MAX-1] = 0;
             sscanf(&line[strlen("*space ")], "%d %" STR(ATOMIC_TERM_LEN_MAX) "s", &granularity, (char*) &termname);
@@ -355,7 +355,7 @@ int Shell_ProcessInput(char *line)
         if(!strncmp("*setopname ", line, strlen("*setopname ")))
         {
             assert(concepts.itemsAmount == 0, "Operators can only be registered right after initialization / reset!");
-            int opID;
+            int opID = 0;
             char opname[ATOMIC_TERM_LEN_MAX+1] = {0};
             opname[ATOMIC_TERM_LEN_MAX-1] = 0;
             sscanf(&line[strlen("*setopname ")], "%d %" STR(ATOMIC_TERM_LEN_MAX) "s", &opID, (char*) &opname);
@@ -380,8 +380,8 @@ int Shell_ProcessInput(char *line)
         else
         if(!strncmp("*setoparg ", line, strlen("*setoparg ")))
         {
-            int opID;
-            int opArgID;
+            int opID = 0;
+            int opArgID = 0;
             char argname[NARSESE_LEN_MAX+1] = {0};
             argname[NARSESE_LEN_MAX-1] = 0;
             sscanf(&line[strlen("*setoparg ")], "%d %d %" STR(NARSESE_LEN_MAX) "[^\n]", &opID, &opArgID, (char*) &argname);
@@ -392,7 +392,7 @@ int Shell_ProcessInput(char *line)
         else
         if(!strncmp("*query ", line, strlen("*query ")))
         {
-            double threshold;
+            double threshold = -1.0;
             char narsese[NARSESE_LEN_MAX+1] = {0};
             narsese[NARSESE_LEN_MAX-1] = 0;
             sscanf(&line[strlen("*query ")], "%lf %" STR(NARSESE_LEN_MAX) "[^\n]", &threshold, (char*) &narsese);
-- 
2.43.0


From cd81bcfee623479555cb88405b4fd8b60f8bc815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:26 +0000
Subject: [PATCH 31/43] fix: many set openers in a sentence overflowed the
 parser's token array

---
 src/Narsese.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Narsese.c b/src/Narsese.c
index 1f45213..d326fa1 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -247,8 +247,8 @@ int skipCompound(char** tokens, int i, int nt)
 
 char** Narsese_PrefixTransform(char* narsese_expanded)
 {
-    static char* tokens[NARSESE_LEN_MAX+1]; //there cannot be more tokens than chars
-    memset(tokens, 0, (NARSESE_LEN_MAX+1)*sizeof(char*)); //and last one stays NULL for sure
+    static char* tokens[2*NARSESE_LEN_MAX+1]; //there cannot be more than two tokens per char, as { and [ become two
+    memset(tokens, 0, sizeof(tokens)); //and last one stays NULL for sure
     char* token = strtok(narsese_expanded, " ");
     int nt = 0, nc = NUM_ELEMENTS(Narsese_CanonicalCopulas) - 1;
     while(token)
-- 
2.43.0


From d88cded998cc606e61dc6a46d1762fe466c43ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:47 +0000
Subject: [PATCH 32/43] fix: incomplete compounds and ones of more than two
 components were taken for different terms

---
 src/Narsese.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/Narsese.c b/src/Narsese.c
index d326fa1..e999ba0 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -245,6 +245,18 @@ int skipCompound(char** tokens, int i, int nt)
     return i;
 }
 
+//whether the token is a canonical copula
+static bool isCopulaToken(char *token)
+{
+    return token[1] == 0 && strchr(Narsese_CanonicalCopulas, token[0]) != NULL;
+}
+
+//whether the token closes a compound term
+static bool isCloserToken(char *token)
+{
+    return token[0] == ')' && token[1] == 0;
+}
+
 char** Narsese_PrefixTransform(char* narsese_expanded)
 {
     static char* tokens[2*NARSESE_LEN_MAX+1]; //there cannot be more than two tokens per char, as { and [ become two
@@ -270,7 +282,7 @@ char** Narsese_PrefixTransform(char* narsese_expanded)
             }
             //it's not a copula, so its in infix form, we need to find its copula and put it before tokens[i+1]
             int i2 = skipCompound(tokens, i+1, nt);
-            if(i2 < nt)
+            if(i2 < nt && strchr(Narsese_CanonicalCopulas, tokens[i2][0]))
             {
                 //1. backup copula token
                 char copula = tokens[i2][0];
@@ -333,10 +345,14 @@ void buildBinaryTree(Term *bintree, char** tokens_prefix, int i1, int tree_index
     {
         int icop = i1+1;
         assert(icop < nt, "Parsing error: Compound term is not complete!");
+        assert(isCopulaToken(tokens_prefix[icop]), "Parsing error: Compound term without copula!");
         //first argument is given by the copula
         i1 = i1+2;
         //second argument has to be searched for
         int i2 = skipCompound(tokens_prefix, i1, nt);
+        assert(i2 < nt && !isCloserToken(tokens_prefix[i1]), "Parsing error: Compound term is not complete!");
+        int i3 = isCloserToken(tokens_prefix[i2]) ? i2 : skipCompound(tokens_prefix, i2, nt);
+        assert(i3 < nt && isCloserToken(tokens_prefix[i3]), "Parsing error: Compound term has to have one or two components!");
         bintree->atoms[tree_index-1] = Narsese_AtomicTermIndex(tokens_prefix[icop]);
         if(i1<nt)
         {
@@ -369,6 +385,7 @@ Term Narsese_Term(char *narsese)
     char** tokens_prefix = Narsese_PrefixTransform(narsese_expanded);
     int nt = 0; for(;tokens_prefix[nt] != NULL; nt++){}
     assert(nt > 0, "Parsing error: Empty term!");
+    assert(!isCloserToken(tokens_prefix[0]) && skipCompound(tokens_prefix, 0, nt) == nt, "Parsing error: More than one term!");
     buildBinaryTree(&ret, tokens_prefix, 0, 1, nt);
     Variable_Normalize(&ret);
     Term_Hash(&ret);
-- 
2.43.0


From 55026d454e2536dd14aa4e8d62e4fd0efd1effca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:12 +0000
Subject: [PATCH 33/43] fix: refuse a value whose atom name would be cut,
 *space with a long name gave all its values the same name

---
 src/Shell.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Shell.c b/src/Shell.c
index 339902d..f867ce9 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -332,7 +332,7 @@ int Shell_ProcessInput(char *line)
             {
                 length = snprintf(termname_ext, sizeof(termname_ext), "%s%s%.3f", termname, sep, value);
             }
-            assert(length > 0 && length < (int) sizeof(termname_ext), "Value or name too long, increase ATOMIC_TERM_LEN_MAX!");
+            assert(length > 0 && length < ATOMIC_TERM_LEN_MAX, "Value or name too long, increase ATOMIC_TERM_LEN_MAX!");
             Narsese_setAtomValue((Atom) Narsese_AtomicTermIndex(termname_ext), value, termname);
         }
         else
-- 
2.43.0


From cda88328416657191fce0153c63a2f6af44d7473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:45 +0000
Subject: [PATCH 34/43] fix: the failure of an operation chosen by numeric
 similarity made knowledge be about the similar concept instead of its
 condition's

---
 src/Decision.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/Decision.c b/src/Decision.c
index 7d49a55..ba2d62c 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -258,11 +258,20 @@ void Decision_Execute(long currentTime, Decision *decision)
             //assumption of failure extension to specific cases not experienced before:
             if(ANTICIPATE_FOR_NOT_EXISTING_SPECIFIC_TEMPORAL_IMPLICATION && decision->missing_specific_implication.term.atoms[0])
             {
-                Term postcondition = Term_ExtractSubterm(&decision->missing_specific_implication.term, 2);
-                Concept *postc = Memory_Conceptualize(&postcondition, currentTime);
-                if(postc != NULL)
+                Implication missing = decision->missing_specific_implication;
+                Term missing_subject = Term_ExtractSubterm(&missing.term, 1);
+                Term source_term = Narsese_GetPreconditionWithoutOp(&missing_subject);
+                Concept *sourcec = Memory_Conceptualize(&source_term, currentTime); //not the concept matched with if its value was only similar
+                if(sourcec != NULL)
                 {
-                    Decision_AddNegativeConfirmation(decision->reason, decision->missing_specific_implication, decision->operationID[i], postc);
+                    missing.sourceConcept = sourcec;
+                    missing.sourceConceptId = sourcec->id;
+                    Term postcondition = Term_ExtractSubterm(&missing.term, 2);
+                    Concept *postc = Memory_Conceptualize(&postcondition, currentTime);
+                    if(postc != NULL)
+                    {
+                        Decision_AddNegativeConfirmation(decision->reason, missing, decision->operationID[i], postc);
+                    }
                 }
             }
         }
-- 
2.43.0


From 7a3cfbe14c430b842044707f104dec55fb2533b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:35 +0000
Subject: [PATCH 35/43] fix: conditions of forgotten concepts kept operations
 from being chosen by numeric similarity

---
 src/Decision.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Decision.c b/src/Decision.c
index ba2d62c..c2b783d 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -471,6 +471,10 @@ Decision Decision_BestCandidate(Concept *goalconcept, Event *goal, long currentT
                                     for(int k=0; k<goalconcept->precondition_beliefs[opk].itemsAmount; k++)
                                     {
                                         Implication impk = goalconcept->precondition_beliefs[opk].array[k];
+                                        if(!Memory_ImplicationValid(&impk))
+                                        {
+                                            continue;
+                                        }
                                         Term left_side_with_opk = Term_ExtractSubterm(&impk.term, 1);
                                         Term left_sidek = Narsese_GetPreconditionWithoutOp(&left_side_with_opk);
                                         Substitution subs3 = Variable_UnifyWithAnalogy(cmatch->belief_spike.truth, &left_sidek, &cmatch->term);
-- 
2.43.0


From 9a31d46cdbb8386b5a2cbad4a82bf7f196574ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:08 +0000
Subject: [PATCH 36/43] fix: comparisons of values of compound attributes got a
 malformed term

---
 src/Cycle.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Cycle.c b/src/Cycle.c
index 947afd9..e9eee3f 100755
--- a/src/Cycle.c
+++ b/src/Cycle.c
@@ -569,7 +569,6 @@ void Cycle_ProcessBeliefEvents(long currentTime)
                                                 Term_OverrideSubterm(&Trelation, 4, &LOC2);
                                             }
                                             Term_OverrideSubterm(&Trelation, 5, &ATTR1);
-                                            Term_OverrideSubterm(&Trelation, 6, &ATTR1);
                                             Trelation.atoms[6] = Narsese_CopulaIndex(SET_TERMINATOR);
                                             Term TrelationWithContext = {0};
                                             if(!rest.atoms[0])
-- 
2.43.0


From 515dbb2dfd5a10590e843ca0bdf3cb5cfb939041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:09 +0000
Subject: [PATCH 37/43] fix: Python client reads questions about past and
 future

---
 misc/Python/NAR.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/misc/Python/NAR.py b/misc/Python/NAR.py
index 3695095..380b2db 100755
--- a/misc/Python/NAR.py
+++ b/misc/Python/NAR.py
@@ -28,6 +28,9 @@ def parseTask(s):
     if "Stamp" in s:
         M["Stamp"] = ast.literal_eval(s.split("Stamp=")[1].split("]")[0]+"]")
     sentence = s.split(" occurrenceTime=")[0] if " occurrenceTime=" in s else s.split(" Stamp=")[0].split(" Priority=")[0].split(" creationTime=")[0]
+    for tense in (" :/:", " :\\:"): #question about the future or past
+        if sentence.endswith(tense):
+            sentence = sentence[:-len(tense)]
     M["punctuation"] = sentence[-4] if ":|:" in sentence else sentence[-1]
     M["term"] = sentence.split(" creationTime")[0].split(" occurrenceTime")[0].split(" Truth")[0].split(" Stamp=")[0][:-1]
     if "Truth" in s:
-- 
2.43.0


From 3e8782c0ba0a209564cc2efcf8552b2f811ac9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:09 +0000
Subject: [PATCH 38/43] fix: Exit of the Python client tells the reasoner to
 quit

---
 misc/Python/NAR.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misc/Python/NAR.py b/misc/Python/NAR.py
index 380b2db..1d420ec 100755
--- a/misc/Python/NAR.py
+++ b/misc/Python/NAR.py
@@ -108,7 +108,8 @@ def AddInput(narsese, Print=True, usedNAR=NARproc):
     return ret
 
 def Exit(usedNAR=NARproc):
-    usedNAR.sendline("quit")
+    usedNAR.stdin.write("quit\n")
+    usedNAR.stdin.flush()
 
 def Reset(usedNAR=NARproc):
     AddInput("*reset", usedNAR=usedNAR)
-- 
2.43.0


From c71fbe5f027ab6e68e6c9b45f8c1dc7f38a0fd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:09 +0000
Subject: [PATCH 39/43] fix: Python client doesn't wait forever for a reasoner
 that has ended

---
 misc/Python/NAR.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/misc/Python/NAR.py b/misc/Python/NAR.py
index 1d420ec..85a5c10 100755
--- a/misc/Python/NAR.py
+++ b/misc/Python/NAR.py
@@ -71,6 +71,8 @@ def GetRawOutput(usedNAR):
             requestOutputArgs = True
             break
         ret = usedNAR.stdout.readline()
+        if ret == "":
+            raise EOFError("NAR has ended")
     return before[:-1], requestOutputArgs
 
 def GetOutput(usedNAR):
-- 
2.43.0


From 4b9cf3c1ab79f54edaf03ac45a973338badb4b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:09 +0000
Subject: [PATCH 40/43] fix: Python client returns the statistics it prints

---
 misc/Python/NAR.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/misc/Python/NAR.py b/misc/Python/NAR.py
index 85a5c10..222d66d 100755
--- a/misc/Python/NAR.py
+++ b/misc/Python/NAR.py
@@ -85,9 +85,11 @@ def GetOutput(usedNAR):
     reason = parseReason("\n".join(lines))
     return {"input": inputs, "derivations": derivations, "answers": answers, "executions": executions, "reason": reason, "selections": selections, "raw": "\n".join(lines), "requestOutputArgs" : requestOutputArgs}
 
-def GetStats(usedNAR):
+def GetStats(usedNAR, Print=False):
     Stats = {}
     lines, _ = GetRawOutput(usedNAR)
+    if Print:
+        print("\n".join(lines))
     for l in lines:
         if ":" in l:
             leftside = l.split(":")[0].replace(" ", "_").strip()
@@ -100,9 +102,7 @@ def AddInput(narsese, Print=True, usedNAR=NARproc):
     usedNAR.stdin.flush()
     ReturnStats = narsese == "*stats"
     if ReturnStats:
-        if Print:
-            print("\n".join(GetRawOutput(usedNAR)[0]))
-        return GetStats(usedNAR)
+        return GetStats(usedNAR, Print)
     ret = GetOutput(usedNAR)
     if Print:
         print(ret["raw"])
-- 
2.43.0


From 0c673bf3a8b39c1c1e37fbffc9eb426bbd2f03d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:09 +0000
Subject: [PATCH 41/43] fix: Python client reads terms with names like Truth or
 Stamp

---
 misc/Python/NAR.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/misc/Python/NAR.py b/misc/Python/NAR.py
index 222d66d..7e0fea0 100755
--- a/misc/Python/NAR.py
+++ b/misc/Python/NAR.py
@@ -23,20 +23,20 @@ def parseTask(s):
     if " :|:" in s:
         M["occurrenceTime"] = "now"
         s = s.replace(" :|:","")
-        if "occurrenceTime" in s:
-            M["occurrenceTime"] = s.split("occurrenceTime=")[1].split(" ")[0]
-    if "Stamp" in s:
-        M["Stamp"] = ast.literal_eval(s.split("Stamp=")[1].split("]")[0]+"]")
+        if " occurrenceTime=" in s:
+            M["occurrenceTime"] = s.split(" occurrenceTime=")[1].split(" ")[0]
+    if " Stamp=" in s:
+        M["Stamp"] = ast.literal_eval(s.split(" Stamp=")[1].split("]")[0]+"]")
     sentence = s.split(" occurrenceTime=")[0] if " occurrenceTime=" in s else s.split(" Stamp=")[0].split(" Priority=")[0].split(" creationTime=")[0]
     for tense in (" :/:", " :\\:"): #question about the future or past
         if sentence.endswith(tense):
             sentence = sentence[:-len(tense)]
     M["punctuation"] = sentence[-4] if ":|:" in sentence else sentence[-1]
-    M["term"] = sentence.split(" creationTime")[0].split(" occurrenceTime")[0].split(" Truth")[0].split(" Stamp=")[0][:-1]
-    if "Truth" in s:
-        M["truth"] = parseTruth(s.split("Truth: ")[1])
-    if "Priority" in s:
-        M["Priority"] = s.split("Priority=")[1].split(" ")[0]
+    M["term"] = sentence.split(" creationTime")[0].split(" occurrenceTime")[0].split(" Truth: ")[0].split(" Stamp=")[0][:-1]
+    if " Truth: " in s:
+        M["truth"] = parseTruth(s.split(" Truth: ")[1])
+    if " Priority=" in s:
+        M["Priority"] = s.split(" Priority=")[1].split(" ")[0]
     return M
 
 def parseReason(sraw):
-- 
2.43.0


From 97f74f90bc456bd77481cb88f5dad9f4a4241225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:50 +0000
Subject: [PATCH 42/43] fix: Python client doesn't take beliefs of operations
 listed by *concepts for executions

---
 misc/Python/NAR.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/Python/NAR.py b/misc/Python/NAR.py
index 7e0fea0..eac31e8 100755
--- a/misc/Python/NAR.py
+++ b/misc/Python/NAR.py
@@ -77,7 +77,7 @@ def GetRawOutput(usedNAR):
 
 def GetOutput(usedNAR):
     lines, requestOutputArgs = GetRawOutput(usedNAR)
-    executions = [parseExecution(l) for l in lines if l.startswith('^')]
+    executions = [parseExecution(l) for l in lines if l.startswith('^') and " executed with args" in l]
     inputs = [parseTask(l.split("Input: ")[1]) for l in lines if l.startswith('Input:')]
     derivations = [parseTask(l.split("Derived: " if l.startswith('Derived:') else "Revised: ")[1]) for l in lines if l.startswith('Derived:') or l.startswith('Revised:')]
     answers = [parseTask(l.split("Answer: ")[1]) for l in lines if l.startswith('Answer:')]
-- 
2.43.0


From aeb2ee183b746a55a60dfea8367a4523fd36a680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:35 +0000
Subject: [PATCH 43/43] fix: persistent Python client lost its memory when
 stopped while saving it

---
 misc/Python/persistentNAR.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/misc/Python/persistentNAR.py b/misc/Python/persistentNAR.py
index a98c910..951fa02 100644
--- a/misc/Python/persistentNAR.py
+++ b/misc/Python/persistentNAR.py
@@ -1,5 +1,6 @@
 import NAR
 import json
+import os
 from os.path import exists
 import sys
 
@@ -100,6 +101,7 @@ if __name__ == "__main__":
                 occurrenceTimeInfo = "" if answer["occurrenceTime"] == "eternal" else " t="+answer["occurrenceTime"]
                 print("Answer: " + answer["term"] + answer["punctuation"] + " {" + str(answer["truth"]["frequency"]) + " " + str(answer["truth"]["confidence"]) + "}" + occurrenceTimeInfo)
         ProcessNAROutput(ret)
-        with open(fname, 'w') as f:
+        with open(fname + ".tmp", 'w') as f: #the last memory stays until the new one is complete
             json.dump(memory, f)
+        os.replace(fname + ".tmp", fname)
         
-- 
2.43.0

