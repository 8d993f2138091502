From 9232f47a5ceca0c5d89d293315e755bb30920183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 01/31] fix: give Task a virtual destructor so that queued
 tasks are destroyed completely

---
 src/task.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/task.h b/src/task.h
index 2931558..4553467 100644
--- a/src/task.h
+++ b/src/task.h
@@ -7,6 +7,7 @@
 class Task
 {
   public:
+    virtual ~Task() = default;
     virtual string PrintTaskType() = 0;
     virtual void Process(const Context &, vector<boost::any> &) = 0;
 };
-- 
2.43.0


From 389f193711e97bbf83fdbafa430e27ff895ad18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 02/31] fix: do not carry the structural delegation check over
 to later jobs

---
 src/driver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/driver.cpp b/src/driver.cpp
index fe4902f..15b3b10 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -221,6 +221,7 @@ void Driver::SetJob(const json &user_job)
     current_job_.path_functions.clear();
     current_job_.node_functions.clear();
     current_job_.types_req = {};
+    current_job_.check_structural_delegations = false;
 
     for (auto &property : user_job["Properties"]) {
         string name = property["PropertyName"];
@@ -384,6 +385,7 @@ void Driver::SetJob(string &domain_name)
     current_job_.path_functions.clear();
     current_job_.node_functions.clear();
     current_job_.types_req = {};
+    current_job_.check_structural_delegations = false;
 
     current_job_.types_req.set(RRType::NS);
 
-- 
2.43.0


From d2930dcc37b8568df63b0700dd04ed8a4fe40892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 03/31] fix: list canonical names in a fixed order in the
 aliases report

---
 src/driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/driver.cpp b/src/driver.cpp
index 15b3b10..ce8784e 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -54,7 +54,7 @@ void Driver::GenerateECsAndCheckProperties()
     std::thread json_consumer = thread([this, &done_consumers]() {
         json item;
         bool itemsLeft;
-        std::unordered_map<string, set<string>> aliases;
+        std::map<string, set<string>> aliases;
         do {
             itemsLeft = done_consumers.load(std::memory_order_acquire) <= kECConsumerCount;
             while (current_job_.json_queue.try_dequeue(item)) {
-- 
2.43.0


From 794c06ffb5e15d3cd745dfe75e0a8b5945fecbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 04/31] fix: keep the loop detection of concurrent class
 generators apart

---
 src/label-graph.cpp | 22 ++++++++++++++--------
 src/label-graph.h   | 10 +++++++++-
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/label-graph.cpp b/src/label-graph.cpp
index 1a1e4de..eaf8a35 100644
--- a/src/label-graph.cpp
+++ b/src/label-graph.cpp
@@ -459,13 +459,18 @@ void label::Graph::SubDomainECGeneration(
     bool skipLabel,
     Job &current_job,
     const Context &context,
-    bool check_structural_delegations)
+    bool check_structural_delegations,
+    LengthAtVertex &visited_lengths) const
 {
+    // visited_lengths holds the length of the name at each node on the current walk. It belongs to one walk, as several
+    // walks may run at the same time.
     size_t len = 0;
     for (NodeLabel &l : parent_domain_name) {
         len += l.get().length() + 1;
     }
-    if (len >= kMaxDomainLength || (len == (*this)[start].len && skipLabel)) {
+    auto visited = visited_lengths.find(start);
+    int16_t beforeLen = visited == visited_lengths.end() ? -1 : visited->second;
+    if (len >= kMaxDomainLength || (len == beforeLen && skipLabel)) {
         //return if length exceedes or DNAME loop detected 
         //mostly likely turns out as cyclic zone dependecy so no need to report here
         return;
@@ -482,7 +487,6 @@ void label::Graph::SubDomainECGeneration(
         // DNAME can not occur at the root.
         name.push_back(node_labels);
     }
-    int16_t beforeLen = (*this)[start].len;
     size_t nodeLen = 0;
     for (NodeLabel &l : name) {
         nodeLen += l.get().length() + 1;
@@ -490,7 +494,7 @@ void label::Graph::SubDomainECGeneration(
     if (nodeLen >= kMaxDomainLength) {
         return;
     }
-    (*this)[start].len = static_cast<int16_t>(nodeLen);
+    visited_lengths[start] = static_cast<int16_t>(nodeLen);
     std::vector<NodeLabel> children_labels;
     std::optional<VertexDescriptor> wildcard_node;
 
@@ -505,13 +509,14 @@ void label::Graph::SubDomainECGeneration(
             if ((*this)[edge.m_target].name.get() == "*") {
                 wildcard_node = edge.m_target;
             }
-            SubDomainECGeneration(edge.m_target, name, false, current_job, context, check_structural_delegations);
+            SubDomainECGeneration(
+                edge.m_target, name, false, current_job, context, check_structural_delegations, visited_lengths);
         }
         if ((*this)[edge].type == dname) {
-            SubDomainECGeneration(edge.m_target, name, true, current_job, context, false);
+            SubDomainECGeneration(edge.m_target, name, true, current_job, context, false, visited_lengths);
         }
     }
-    (*this)[start].len = beforeLen;
+    visited_lengths[start] = beforeLen;
     if (!skipLabel) {
         // EC for the node if the node is not skipped.
         NodeEC(name, current_job);
@@ -592,9 +597,10 @@ void label::Graph::GenerateECs(Job &current_job, const Context &context)
                 // EC producer threads
                 for (auto &encloser : closest_enclosers) {
                     ECproducers.push_back(thread([&]() {
+                        LengthAtVertex visited_lengths;
                         SubDomainECGeneration(
                             encloser.first, parent_domain_name, false, current_job, context,
-                            current_job.check_structural_delegations);
+                            current_job.check_structural_delegations, visited_lengths);
                     }));
                 }
                 for (auto &t : ECproducers) {
diff --git a/src/label-graph.h b/src/label-graph.h
index eb1a148..36684aa 100644
--- a/src/label-graph.h
+++ b/src/label-graph.h
@@ -50,6 +50,7 @@ class Graph : public boost::adjacency_list<boost::vecS, boost::vecS, boost::dire
     using VertexIterator = boost::graph_traits<Graph>::vertex_iterator;
     using EdgeIterator = boost::graph_traits<Graph>::edge_iterator;
     using LabelToVertex = boost::unordered_map<NodeLabel, VertexDescriptor>;
+    using LengthAtVertex = std::unordered_map<VertexDescriptor, int16_t>;
     using ZoneIdGlueNSRecords = tuple<int, boost::optional<vector<ResourceRecord>>, vector<ResourceRecord>>;
 
     template <class VertexMap> class VertexWriter
@@ -122,7 +123,14 @@ class Graph : public boost::adjacency_list<boost::vecS, boost::vecS, boost::dire
     // string GetHostingNameServer(int, const Context &) const;
     void NodeEC(const vector<NodeLabel> &name, Job &) const;
     vector<ClosestNode> SearchNode(VertexDescriptor, const vector<NodeLabel> &, int);
-    void SubDomainECGeneration(VertexDescriptor, vector<NodeLabel>, bool, Job &, const Context &, bool);
+    void SubDomainECGeneration(
+        VertexDescriptor,
+        vector<NodeLabel>,
+        bool,
+        Job &,
+        const Context &,
+        bool,
+        LengthAtVertex &) const;
     void WildcardChildEC(std::vector<NodeLabel> &, const vector<NodeLabel> &, int, Job &) const;
 
   public:
-- 
2.43.0


From e363bc240ecde975de97708b59aecc4cb0035874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 05/31] fix: exit with a failure status when a run ends with an
 exception

---
 bin/groot.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/groot.cpp b/bin/groot.cpp
index 11baf0c..5c1f7ec 100644
--- a/bin/groot.cpp
+++ b/bin/groot.cpp
@@ -173,5 +173,6 @@ int main(int argc, const char **argv)
     } catch (exception &e) {
         cout << "Exception:- " << e.what() << endl;
         spdlog::shutdown();
+        return EXIT_FAILURE;
     }
 }
\ No newline at end of file
-- 
2.43.0


From aef9a9aab3131862952fa91f61d89cf5ddb9599d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 06/31] fix: fail when the report cannot be written completely

---
 src/driver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/driver.cpp b/src/driver.cpp
index ce8784e..91fd961 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -463,6 +463,9 @@ void Driver::WriteViolationsToFile(string output_file) const
     }
     ofs << "\n]";
     ofs.close();
+    if (!ofs) {
+        throw std::runtime_error(fmt::format("Unable to write the violations to {}", output_file));
+    }
     Logger->debug(fmt::format("driver.cpp (WriteViolationsToFile) - Output written to {}", output_file));
 }
 
-- 
2.43.0


From 86377f41e6dc3c78ec535549b636bad3e106c529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 07/31] fix: fail when the lint file cannot be read or written
 completely

---
 bin/groot.cpp | 6 ++++++
 src/utils.cpp | 8 +++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/bin/groot.cpp b/bin/groot.cpp
index 5c1f7ec..7012f60 100644
--- a/bin/groot.cpp
+++ b/bin/groot.cpp
@@ -156,6 +156,9 @@ int main(int argc, const char **argv)
             fs.open("lint.json", ios::out);
             fs << "[\n";
             fs.close();
+            if (!fs) {
+                throw runtime_error("Unable to create the file lint.json");
+            }
         }
 
         // TODO: validate that the directory and property files exist
@@ -168,6 +171,9 @@ int main(int argc, const char **argv)
             fs.open("lint.json", ios::app);
             fs << "\n]";
             fs.close();
+            if (!fs) {
+                throw runtime_error("Unable to write to the file lint.json");
+            }
         }
         return 0;
     } catch (exception &e) {
diff --git a/src/utils.cpp b/src/utils.cpp
index dff5a85..92d6ee5 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -198,15 +198,21 @@ void LintUtils::WriteIssueToFile(json &log_line, bool lint)
                 if (i > 3)
                     break;
             }
+            if (in.bad()) {
+                throw std::runtime_error("Unable to read the file lint.json");
+            }
             in.close();
         } else {
-            Logger->error("Linting enabled but unable to open the lint.txt file for reading");
+            throw std::runtime_error("Unable to open the file lint.json for reading");
         }
         std::ofstream out("lint.json", ios::app);
         if (i > 3)
             out << ",\n";
         out << log_line.dump(4);
         out.close();
+        if (!out) {
+            throw std::runtime_error("Unable to write to the file lint.json");
+        }
     }
 }
 
-- 
2.43.0


From 2fa0491d569593463f1d1a204319fccdf0dbda8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 08/31] fix: never drop a query class or violation when a queue
 runs out of memory

---
 src/ec-task.cpp              |  8 +++++---
 src/interpretation-graph.cpp |  2 +-
 src/label-graph.cpp          | 12 ++++++------
 src/properties.cpp           | 30 +++++++++++++++---------------
 src/utils.h                  | 15 +++++++++++++++
 5 files changed, 42 insertions(+), 25 deletions(-)

diff --git a/src/ec-task.cpp b/src/ec-task.cpp
index 481a4e2..cef6947 100644
--- a/src/ec-task.cpp
+++ b/src/ec-task.cpp
@@ -12,9 +12,11 @@ void ECTask::Process(const Context &context, vector<boost::any> &variadic_argume
     interpretation::Graph interpretation_graph_for_ec(ec_, context);
     interpretation_graph_for_ec.CheckForLoops(current_job->json_queue);
     // interpretation_graph_for_ec.GenerateDotFile("InterpretationGraph.dot");
-    current_job->attributes_queue.enqueue(
-        {static_cast<int>(num_vertices(interpretation_graph_for_ec)),
-         static_cast<int>(num_edges(interpretation_graph_for_ec))});
+    QueueUtils::Enqueue(
+        current_job->attributes_queue,
+        interpretation::Graph::Attributes{
+            static_cast<int>(num_vertices(interpretation_graph_for_ec)),
+            static_cast<int>(num_edges(interpretation_graph_for_ec))});
     current_job->stats.ec_count++;
     interpretation_graph_for_ec.CheckPropertiesOnEC(
         current_job->path_functions, current_job->node_functions, current_job->json_queue);
diff --git a/src/interpretation-graph.cpp b/src/interpretation-graph.cpp
index 5ad931b..41683e6 100644
--- a/src/interpretation-graph.cpp
+++ b/src/interpretation-graph.cpp
@@ -305,7 +305,7 @@ void interpretation::Graph::PrettyPrintLoop(
         }
         tmp["Loop"].push_back(node);
     }
-    json_queue.enqueue(tmp);
+    QueueUtils::Enqueue(json_queue, tmp);
 }
 
 EC interpretation::Graph::ProcessCname(const ResourceRecord &record, const EC query) const
diff --git a/src/label-graph.cpp b/src/label-graph.cpp
index eaf8a35..08813e7 100644
--- a/src/label-graph.cpp
+++ b/src/label-graph.cpp
@@ -74,7 +74,7 @@ void label::Graph::NodeEC(const vector<NodeLabel> &name, Job &current_job) const
     present->ec_.rrTypes = current_job.types_req;
     // EC generated
     // Push it to the EC queue
-    current_job.ec_queue.enqueue(std::move(present));
+    QueueUtils::Enqueue(current_job.ec_queue, std::move(present));
 }
 
 label::Graph::VertexDescriptor label::Graph::AddNodes(
@@ -306,7 +306,7 @@ void label::Graph::CompareParentChildDelegationRecords(
     if (j.size()) {
         j["Property"] = "Structural Delegation Consistency";
         j["Domain Name"] = user_input;
-        current_job.json_queue.enqueue(j);
+        QueueUtils::Enqueue(current_job.json_queue, j);
     }
 }
 
@@ -501,7 +501,7 @@ void label::Graph::SubDomainECGeneration(
     // Check structural delegation for this node
     if (check_structural_delegations) {
         unique_ptr<StructuralTask> task = make_unique<StructuralTask>(start, LabelUtils::LabelsToString(name));
-        current_job.ec_queue.enqueue(std::move(task));
+        QueueUtils::Enqueue(current_job.ec_queue, std::move(task));
     }
 
     for (EdgeDescriptor edge : boost::make_iterator_range(out_edges(start, *this))) {
@@ -533,7 +533,7 @@ void label::Graph::SubDomainECGeneration(
         nonExistent->ec_.nonExistent = true;
         // EC generated
         // Push it to the queue
-        current_job.ec_queue.enqueue(std::move(nonExistent));
+        QueueUtils::Enqueue(current_job.ec_queue, std::move(nonExistent));
     }
 }
 
@@ -551,7 +551,7 @@ void label::Graph::WildcardChildEC(
     wildcard_match->ec_.rrTypes = current_job.types_req;
     wildcard_match->ec_.excluded = boost::make_optional(std::move(children_labels));
     // EC generated - Push it to the queue
-    current_job.ec_queue.enqueue(std::move(wildcard_match));
+    QueueUtils::Enqueue(current_job.ec_queue, std::move(wildcard_match));
 }
 
 void label::Graph::GenerateDotFile(string output_file)
@@ -632,7 +632,7 @@ void label::Graph::GenerateECs(Job &current_job, const Context &context)
             non_existent->ec_.rrTypes = current_job.types_req;
             non_existent->ec_.excluded = boost::make_optional(std::vector<NodeLabel>());
             // EC generated
-            current_job.ec_queue.enqueue(std::move(non_existent));
+            QueueUtils::Enqueue(current_job.ec_queue, std::move(non_existent));
         }
     } else {
         Logger->critical(fmt::format(
diff --git a/src/properties.cpp b/src/properties.cpp
index 01a8f5e..8ffc816 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -64,7 +64,7 @@ void interpretation::Graph::Properties::CheckResponseReturned(
                             tmp["Query"] = graph[vd].query.ToString();
                             tmp["Violation"]["Types"] = TypeUtils::TypesToString(std::get<1>(a) & types_req);
                             tmp["Violation"]["Nameserver"] = graph[vd].ns;
-                            json_queue.enqueue(tmp);
+                            QueueUtils::Enqueue(json_queue, tmp);
                         }
                     }
                 }
@@ -119,7 +119,7 @@ void interpretation::Graph::Properties::CheckResponseValue(
         std::string s = std::accumulate(values.begin(), values.end(), std::string{});
         tmp["Expected"] = s;
         tmp["Property"] = "Response Value";
-        json_queue.enqueue(tmp);
+        QueueUtils::Enqueue(json_queue, tmp);
     }
 }
 
@@ -194,7 +194,7 @@ void interpretation::Graph::Properties::CheckSameResponseReturned(
         json tmp;
         tmp["Property"] = "Response Consistency";
         tmp["Query"] = graph[end_nodes[0]].query.ToString();
-        json_queue.enqueue(tmp);
+        QueueUtils::Enqueue(json_queue, tmp);
     }
 }
 
@@ -224,7 +224,7 @@ void interpretation::Graph::Properties::ZeroTTL(
                             tmp["Query"] = graph[end_nodes[0]].query.ToString();
                             tmp["Violation"]["Nameserver"] = graph[vd].ns;
                             tmp["Violation"]["Record"] = r.toString();
-                            json_queue.enqueue(tmp);
+                            QueueUtils::Enqueue(json_queue, tmp);
                         }
                     }
                 }
@@ -259,7 +259,7 @@ void interpretation::Graph::Properties::AllAliases(
                     tmp["Property"] = "All Aliases";
                     tmp["Query"] = graph[p[i]].query.ToString();
                     tmp["Canonical Name"] = graph[p[j]].query.ToString();
-                    json_queue.enqueue(tmp);
+                    QueueUtils::Enqueue(json_queue, tmp);
                 }
             }
         }
@@ -296,7 +296,7 @@ void interpretation::Graph::Properties::InfiniteDName(
                                 tmp["RRsUsed"][seq] = entry;
                                 j++;
                             }
-                            json_queue.enqueue(tmp);
+                            QueueUtils::Enqueue(json_queue, tmp);
                             return;
                         }
                         uint32_t size = graph[p[i]].query.name.size();
@@ -380,7 +380,7 @@ void interpretation::Graph::Properties::CheckDelegationConsistency(
                     tmp["Violation"]["Nameserver1"] = graph[p[parentIndex]].ns;
                     tmp["Violation"]["Nameserver2"] = graph[p[static_cast<long long>(parentIndex) + 1]].ns;
                     tmp["Violation"]["InconsistencyType"] = "NS";
-                    json_queue.enqueue(tmp);
+                    QueueUtils::Enqueue(json_queue, tmp);
                 }
                 if (std::get<1>(glue_diff).size() || std::get<2>(glue_diff).size()) {
                     json tmp;
@@ -389,7 +389,7 @@ void interpretation::Graph::Properties::CheckDelegationConsistency(
                     tmp["Violation"]["Nameserver1"] = graph[p[parentIndex]].ns;
                     tmp["Violation"]["Nameserver2"] = graph[p[static_cast<long long>(parentIndex) + 1]].ns;
                     tmp["Violation"]["InconsistencyType"] = "Glue";
-                    json_queue.enqueue(tmp);
+                    QueueUtils::Enqueue(json_queue, tmp);
                 }
             }
         } else {
@@ -431,7 +431,7 @@ void interpretation::Graph::Properties::CheckLameDelegation(
                             tmp["Query"] = query.ToString();
                             tmp["Violation"]["Nameserver1"] = graph[p[i]].ns;
                             tmp["Violation"]["Nameserver2"] = graph[p[static_cast<long long>(i) + 1]].ns;
-                            json_queue.enqueue(tmp);
+                            QueueUtils::Enqueue(json_queue, tmp);
                         }
                     }
                 }
@@ -458,7 +458,7 @@ void interpretation::Graph::Properties::DNAMESubstitutionExceedesLength(
             tmp["Query"] = graph[p[0]].query.ToString();
             tmp["Violation"]["RewriteTarget"] = graph[p[p.size() - 1]].query.ToString();
             tmp["Violation"]["Nameserver"] = graph[p[p.size() - 1]].ns;
-            json_queue.enqueue(tmp);
+            QueueUtils::Enqueue(json_queue, tmp);
         }
     }
 }
@@ -480,7 +480,7 @@ void interpretation::Graph::Properties::NameServerContact(
                 tmp["Query"] = graph[p[i]].query.ToString();
                 tmp["Violation"]["ExternalNameserver"] = graph[p[i]].ns;
                 tmp["Violation"]["AllowedDomains"] = LabelUtils::LabelsToString(allowed_domains);
-                json_queue.enqueue(tmp);
+                QueueUtils::Enqueue(json_queue, tmp);
             }
         }
     }
@@ -513,7 +513,7 @@ void interpretation::Graph::Properties::NumberOfHops(
         tmp["Query"] = graph[p[0]].query.ToString();
         tmp["Violation"]["ActualHops"] = nameServers.size();
         tmp["Violation"]["MaxAllowedHops"] = num_hops;
-        json_queue.enqueue(tmp);
+        QueueUtils::Enqueue(json_queue, tmp);
     }
 }
 
@@ -546,7 +546,7 @@ void interpretation::Graph::Properties::NumberOfRewrites(
         tmp["Query"] = graph[p[0]].query.ToString();
         tmp["Violation"]["ActualRewrites"] = rewrites;
         tmp["Violation"]["MaxAllowedRewrites"] = num_rewrites;
-        json_queue.enqueue(tmp);
+        QueueUtils::Enqueue(json_queue, tmp);
     }
 }
 
@@ -572,7 +572,7 @@ void interpretation::Graph::Properties::QueryRewrite(
                     tmp["Violation"]["RewriteTarget"] = graph[p[static_cast<long long>(i) + 1]].query.ToString();
                     tmp["Violation"]["Nameserver"] = graph[p[i]].ns;
                     tmp["Violation"]["ExpectedUnder"] = LabelUtils::LabelsToString(domain);
-                    json_queue.enqueue(tmp);
+                    QueueUtils::Enqueue(json_queue, tmp);
                 }
             } else {
                 // Rewrite can be the last node in the path if the user requested CNAME type.
@@ -606,7 +606,7 @@ void interpretation::Graph::Properties::RewriteBlackholing(
                     tmp["Query"] = graph[p[i]].query.ToString();
                     tmp["Violation"]["RewriteTarget"] = targetNode.query.ToString();
                     tmp["Violation"]["BlackholeNameserver"] = targetNode.ns;
-                    json_queue.enqueue(tmp);
+                    QueueUtils::Enqueue(json_queue, tmp);
                     /*	stringstream ss;
                         ss << std::this_thread::get_id();
                         if (!boost::filesystem::exists("Graphs/" + ss.str() + ".dot")) {
diff --git a/src/utils.h b/src/utils.h
index 25b7ff2..13a63c5 100644
--- a/src/utils.h
+++ b/src/utils.h
@@ -1,7 +1,9 @@
 #ifndef UTILS_H_
 #define UTILS_H_
 
+#include <new>
 #include <set>
+#include <utility>
 
 #include "resource-record.h"
 
@@ -32,6 +34,19 @@ class RRUtils
     static CommonSymDiff CompareRRs(vector<ResourceRecord>, vector<ResourceRecord>);
 };
 
+class QueueUtils
+{
+  public:
+    // A concurrent queue reports that it ran out of memory through its return value only. Dropping the item silently
+    // would hide query classes or violations.
+    template <typename Queue, typename Item> static void Enqueue(Queue &queue, Item &&item)
+    {
+        if (!queue.enqueue(std::forward<Item>(item))) {
+            throw std::bad_alloc();
+        }
+    }
+};
+
 class LintUtils
 {
   public:
-- 
2.43.0


From 045acb0320260ae99961e67d94b2719a4363630c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 09/31] fix: parse owner names that look like a record type

---
 src/zone-file-parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index e6a6724..af88bf8 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -339,7 +339,8 @@ struct Parser {
         int i = 0;
         for (auto &field : current_record) {
             string f(field);
-            if (f.length() < 6) {
+            // The first field is the owner name (empty if omitted) even if it looks like a type.
+            if (i > 0 && f.length() < 6) {
                 boost::to_upper(f);
                 if (std::find(std::begin(types), std::end(types), f) != std::end(types)) {
                     return i;
-- 
2.43.0


From 68709db1ae14c40a027106f68111613b8f8c2145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 10/31] fix: parse the last record of a zone file that has no
 final newline

---
 src/zone-file-parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index af88bf8..07d8982 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -386,6 +386,8 @@ int Driver::ParseZoneFileAndExtendGraphs(string file, string nameserver, string
 
     // get the zone file input as a string.
     string str(ReadFromFile(file.c_str()));
+    // A record ends at the end of its line, also if the last line has no newline.
+    str += '\n';
     char const *first = str.c_str();
     char const *last = &first[str.size()];
 
-- 
2.43.0


From a30653d35a1605a88fa21480cf9e0cca343d61fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 11/31] fix: do not abort on records of types without a number
 of their own

---
 src/resource-record.cpp | 4 +++-
 src/zone-graph.cpp      | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/resource-record.cpp b/src/resource-record.cpp
index 8dbed6c..b18fb84 100644
--- a/src/resource-record.cpp
+++ b/src/resource-record.cpp
@@ -25,7 +25,9 @@ ostream &operator<<(ostream &os, const ResourceRecord &rr)
 string ResourceRecord::toString()
 {
     std::bitset<RRType::N> rrTypes;
-    rrTypes.set(type_);
+    if (type_ != RRType::N) {
+        rrTypes.set(type_);
+    }
     return LabelUtils::LabelsToString(name_) + "   " + TypeUtils::TypesToString(rrTypes) + "   " + rdata_.get();
 }
 
diff --git a/src/zone-graph.cpp b/src/zone-graph.cpp
index 9936d81..f8284f3 100644
--- a/src/zone-graph.cpp
+++ b/src/zone-graph.cpp
@@ -271,7 +271,9 @@ std::bitset<RRType::N> zone::Graph::GetNodeRRTypes(const vector<ResourceRecord>
 {
     std::bitset<RRType::N> rrTypes;
     for (auto &record : rrs) {
-        rrTypes[record.get_type()] = 1;
+        if (record.get_type() != RRType::N) {
+            rrTypes[record.get_type()] = 1;
+        }
     }
     return rrTypes;
 }
-- 
2.43.0


From 9d134f733cc965938ea15ea657df904816f1c1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 12/31] fix: load and check zone files of the root zone

---
 src/label-graph.cpp | 2 +-
 src/zone-graph.cpp  | 5 +++--
 src/zone-graph.h    | 1 +
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/label-graph.cpp b/src/label-graph.cpp
index 08813e7..96de9aa 100644
--- a/src/label-graph.cpp
+++ b/src/label-graph.cpp
@@ -203,7 +203,7 @@ void label::Graph::CheckStructuralDelegationConsistency(
                     // Parents issue: For a domain - dns.foo.com.ar. the records can come from multiple sources like
                     // from com.ar. (glue record), foo.com.ar. (delegation) and dns.foo.com.ar (SOA) In such cases we
                     // get multiple parents which should not be accounted for.
-                    if (longest_parent.size()) {
+                    if (parents.size()) {
                         if (longest_parent == z.get_origin()) {
                             parents.push_back(std::make_tuple(
                                 std::get<0>(zoneId_vertexId_pair), z.LookUpGlueRecords(ns_records),
diff --git a/src/zone-graph.cpp b/src/zone-graph.cpp
index f8284f3..4c0f2d8 100644
--- a/src/zone-graph.cpp
+++ b/src/zone-graph.cpp
@@ -127,6 +127,7 @@ tuple<zone::RRAddCode, boost::optional<zone::Graph::VertexDescriptor>> zone::Gra
     (*this)[node].rrs.push_back(record);
     if (record.get_type() == RRType::SOA) {
         origin_ = record.get_name();
+        has_soa_ = true;
     }
     return {RRAddCode::SUCCESS, node};
 }
@@ -138,9 +139,9 @@ void zone::Graph::CheckGlueRecordsPresence(const Nameserver &ns)
 
 bool zone::Graph::CheckZoneMembership(const ResourceRecord &record, const string &filename)
 {
-    if (record.get_type() == RRType::SOA && origin_.size() == 0) {
+    if (record.get_type() == RRType::SOA && !has_soa_) {
         return true;
-    } else if (origin_.size() == 0) {
+    } else if (!has_soa_) {
         Logger->critical(fmt::format(
             "zone-graph.cpp (CheckZoneMembership) - Non SOA record is written before a SOA record in the zone file {}",
             filename));
diff --git a/src/zone-graph.h b/src/zone-graph.h
index 289f0b1..eeb0f19 100644
--- a/src/zone-graph.h
+++ b/src/zone-graph.h
@@ -45,6 +45,7 @@ class Graph : public boost::adjacency_list<boost::vecS, boost::vecS, boost::dire
     using EdgeDescriptor = boost::graph_traits<Graph>::edge_descriptor;
     using LabelToVertex = boost::unordered_map<NodeLabel, VertexDescriptor>;
 
+    bool has_soa_ = false;
     int id_;
     vector<NodeLabel> origin_;
     zone::Graph::VertexDescriptor root_ = 0;
-- 
2.43.0


From dffdce158e1ef78551c386ac978868d27be39823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 13/31] fix: expand @ and names relative to the root or to a
 relative origin

---
 src/zone-file-parser.cpp | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 07d8982..a2a85fc 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -97,7 +97,7 @@ struct Parser {
             if (paren_count == 0 && current_record.size() > 0) {
                 // Control entry $ORIGIN - Sets the origin for relative domain names
                 if (current_record[0].compare("$ORIGIN") == 0) {
-                    relative_domain_suffix = current_record[1];
+                    relative_domain_suffix = AbsoluteName(current_record[1], relative_domain_suffix);
                     boost::to_lower(relative_domain_suffix);
                     current_record.clear();
                     return true;
@@ -195,27 +195,14 @@ struct Parser {
                     }
                 }
                 if (!boost::algorithm::ends_with(name, ".")) {
-                    name = name + "." + relative_domain_suffix;
+                    name = AbsoluteName(name, relative_domain_suffix);
                     default_values.set_name(name);
                 }
                 // compare returns zero when equal
                 if (!type.compare("NS") || !type.compare("CNAME") || !type.compare("DNAME") || !type.compare("MX")) {
-                    if (!boost::algorithm::ends_with(rdata, ".")) {
-                        // if (relativeDomainSuffix.length() > 0) {
-                        //	if (rdata.compare("@") == 0) {
-                        //		rdata = relativeDomainSuffix;
-                        //	}
-                        //	else {
-                        //		rdata = rdata + "." + relativeDomainSuffix;
-                        //	}
-                        //}
-                        // else {
-                        //	cout << "Encountered @ symbol but relative domain is empty for rdata";
-                        //	currentRecord.clear();
-                        //	return false;
-                        //}
-                        rdata = rdata + "." + relative_domain_suffix;
-                    }
+                    // The domain name is the last (for all but MX the only) field.
+                    auto name_start = rdata.rfind(' ') + 1;
+                    rdata = rdata.substr(0, name_start) + AbsoluteName(rdata.substr(name_start), relative_domain_suffix);
                 }
                 boost::to_lower(rdata);
                 boost::to_lower(name);
@@ -330,6 +317,17 @@ struct Parser {
         return true;
     }
 
+    string AbsoluteName(const string &name, const string &relative_domain_suffix) const
+    {
+        if (boost::algorithm::ends_with(name, ".")) {
+            return name;
+        }
+        if (name == "@") {
+            return relative_domain_suffix;
+        }
+        return relative_domain_suffix == "." ? name + "." : name + "." + relative_domain_suffix;
+    }
+
     int GetTypeIndex(vector<string> &current_record) const
     {
         std::vector<string> types{"A",    "MX",  "NS",    "CNAME", "SOA",  "PTR", "TXT",
-- 
2.43.0


From 5df6246ebb3bc5ce6c776d0f8664724999f65c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 14/31] fix: take an omitted TTL from $TTL or else from the
 last record that states one

---
 src/zone-file-parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index a2a85fc..7aeb4a7 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -15,6 +15,7 @@ struct MiniContext {
     string file_name = "";
     bool found_SOA = false;
     bool lint = false;
+    bool ttl_directive = false;
     int rrs_parsed = 0;
     std::unordered_map<string, long> type_to_count;
 };
@@ -112,6 +113,7 @@ struct Parser {
                 // Control entry $TTL - The TTL for records without explicit TTL value
                 if (current_record[0].compare("$TTL") == 0) {
                     default_values.set_ttl(std::stoi(current_record[1]));
+                    mc.ttl_directive = true;
                     current_record.clear();
                     return true;
                 }
@@ -172,7 +174,8 @@ struct Parser {
                             class_ = 1;
                         } else if (isInteger(field)) {
                             ttl = std::stoi(field);
-                            if (default_values.get_ttl() == 0)
+                            // Without a $TTL an omitted TTL is the last one stated.
+                            if (!mc.ttl_directive)
                                 default_values.set_ttl(ttl);
                         } else {
                             Logger->warn(fmt::format(
-- 
2.43.0


From 48361cd55a77963f744c51c343be869b811d6173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 15/31] fix: accept domain names of the maximum legal length

---
 src/label-graph.cpp | 4 ++--
 src/utils.cpp       | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/label-graph.cpp b/src/label-graph.cpp
index 96de9aa..fbbdc5d 100644
--- a/src/label-graph.cpp
+++ b/src/label-graph.cpp
@@ -470,7 +470,7 @@ void label::Graph::SubDomainECGeneration(
     }
     auto visited = visited_lengths.find(start);
     int16_t beforeLen = visited == visited_lengths.end() ? -1 : visited->second;
-    if (len >= kMaxDomainLength || (len == beforeLen && skipLabel)) {
+    if (len > kMaxDomainLength + 1 || (len == beforeLen && skipLabel)) {
         //return if length exceedes or DNAME loop detected 
         //mostly likely turns out as cyclic zone dependecy so no need to report here
         return;
@@ -491,7 +491,7 @@ void label::Graph::SubDomainECGeneration(
     for (NodeLabel &l : name) {
         nodeLen += l.get().length() + 1;
     }
-    if (nodeLen >= kMaxDomainLength) {
+    if (nodeLen > kMaxDomainLength + 1) {
         return;
     }
     visited_lengths[start] = static_cast<int16_t>(nodeLen);
diff --git a/src/utils.cpp b/src/utils.cpp
index 92d6ee5..19ae55e 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -38,7 +38,8 @@ tuple<bool, string> LabelUtils::LengthCheck(vector<NodeLabel> domain_labels, int
         }
         length += l.get().length() + 1;
     }
-    if (length > kMaxDomainLength) {
+    // The maximum excludes the dot at the end.
+    if (length > kMaxDomainLength + 1) {
         if (level == 2) {
             Logger->warn(fmt::format(
                 "label-graph.cpp (GenerateECs) - Userinput, {}, exceedes the valid domain length",
-- 
2.43.0


From 9225b613383481aa196150da02850321ca97b996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 16/31] fix: compare expected response values without regard to
 case

---
 src/driver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/driver.cpp b/src/driver.cpp
index 91fd961..3be5558 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -253,6 +253,8 @@ void Driver::SetJob(const json &user_job)
         } else if (name == "ResponseValue") {
             std::set<string> values;
             for (string v : property["Value"]) {
+                // The data of the records is in lower case too.
+                boost::to_lower(v);
                 values.insert(v);
             }
             if (values.size()) {
-- 
2.43.0


From 485e2bc38b64bc9731e1573953c0d4b84524f2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 17/31] fix: do not compare rewrites with the expected value if
 CNAME is not asked for

---
 src/properties.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/properties.cpp b/src/properties.cpp
index 8ffc816..6395532 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -93,8 +93,9 @@ void interpretation::Graph::Properties::CheckResponseValue(
     json tmp;
     for (auto vd : end_nodes) {
         if ((graph[vd].query.rrTypes & types_requested).count() > 0) {
+            // A rewrite is an answer only if CNAME is one of the types of this check.
             if (std::get<0>(graph[vd].answer.get()[0]) == ReturnTag::ANS ||
-                std::get<0>(graph[vd].answer.get()[0]) == ReturnTag::REWRITE) {
+                (std::get<0>(graph[vd].answer.get()[0]) == ReturnTag::REWRITE && types_requested[RRType::CNAME])) {
                 set<string> rdatas;
                 for (auto rr : std::get<2>(graph[vd].answer.get()[0])) {
                     if (types_requested[rr.get_type()] == 1) {
-- 
2.43.0


From 5e809e0c236c147531db4cd5fa9b6a91436fc6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 18/31] fix: compare only the types of the check for response
 consistency

---
 src/properties.cpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/properties.cpp b/src/properties.cpp
index 6395532..33af1d0 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -124,6 +124,17 @@ void interpretation::Graph::Properties::CheckResponseValue(
     }
 }
 
+static vector<ResourceRecord> RecordsOfTypes(const vector<ResourceRecord> &records, std::bitset<RRType::N> types)
+{
+    vector<ResourceRecord> filtered;
+    for (auto &r : records) {
+        if (types[r.get_type()]) {
+            filtered.push_back(r);
+        }
+    }
+    return filtered;
+}
+
 void interpretation::Graph::Properties::CheckSameResponseReturned(
     const interpretation::Graph &graph,
     const vector<VertexDescriptor> &end_nodes,
@@ -151,14 +162,19 @@ void interpretation::Graph::Properties::CheckSameResponseReturned(
                     std::get<0>(answer.get()[0]) == ReturnTag::NSNOTFOUND) {
                     incomplete = true;
                 } else {
-                    if (graph[vd].query.rrTypes[RRType::CNAME]) {
+                    if (graph[vd].query.rrTypes[RRType::CNAME] && typesReq[RRType::CNAME]) {
                         cname_end_nodes.push_back(vd);
                     }
+                    if (std::get<0>(answer.get()[0]) == ReturnTag::REWRITE) {
+                        // The answer for the other types is at the end of the rewrites.
+                        continue;
+                    }
                     if (!response) {
                         response = answer;
                     } else {
-                        CommonSymDiff diff =
-                            RRUtils::CompareRRs(std::get<2>(answer.get()[0]), std::get<2>(response.get()[0]));
+                        CommonSymDiff diff = RRUtils::CompareRRs(
+                            RecordsOfTypes(std::get<2>(answer.get()[0]), typesReq),
+                            RecordsOfTypes(std::get<2>(response.get()[0]), typesReq));
                         if (std::get<1>(diff).size() || std::get<2>(diff).size()) {
                             foundDiff = true;
                         }
@@ -182,8 +198,9 @@ void interpretation::Graph::Properties::CheckSameResponseReturned(
             } else {
                 // If only CNAME is requested then the answer will only have one element
                 // If CNAME and other types are requested then there might be a node with Rewrite
-                CommonSymDiff diff =
-                    RRUtils::CompareRRs(std::get<2>(graph[vd].answer.get()[0]), std::get<2>(response.get()[0]));
+                CommonSymDiff diff = RRUtils::CompareRRs(
+                    RecordsOfTypes(std::get<2>(graph[vd].answer.get()[0]), typesReq),
+                    RecordsOfTypes(std::get<2>(response.get()[0]), typesReq));
                 if (std::get<1>(diff).size() || std::get<2>(diff).size()) {
                     foundDiff = true;
                 }
-- 
2.43.0


From 32d3b97dc51c7f15d6870cdecf2a121cb86d26cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 19/31] fix: report zero TTLs only for the types of the check

---
 src/properties.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/properties.cpp b/src/properties.cpp
index 33af1d0..c9d9ae1 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -236,7 +236,7 @@ void interpretation::Graph::Properties::ZeroTTL(
                 } else {
                     auto &rrs = std::get<2>(answer.get()[0]);
                     for (auto &r : rrs) {
-                        if (r.get_ttl() == 0) {
+                        if (r.get_ttl() == 0 && typesReq[r.get_type()]) {
                             json tmp;
                             tmp["Property"] = "Zero TTL";
                             tmp["Query"] = graph[end_nodes[0]].query.ToString();
-- 
2.43.0


From 2a4b6d5176566f1d8337b7ba8e3a24a46414560b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:28 +0000
Subject: [PATCH 20/31] fix: apply a DNAME record at the root

---
 src/label-graph.cpp | 5 +----
 src/zone-graph.cpp  | 4 ++++
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/label-graph.cpp b/src/label-graph.cpp
index fbbdc5d..044cb69 100644
--- a/src/label-graph.cpp
+++ b/src/label-graph.cpp
@@ -480,11 +480,8 @@ void label::Graph::SubDomainECGeneration(
     name = parent_domain_name;
     if (node_labels.get() == ".") {
         // Root has empty parent vector
-    } else if (parent_domain_name.size() == 0) {
-        // Empty name vector implies root
-        name.push_back(node_labels);
     } else if (!skipLabel) {
-        // DNAME can not occur at the root.
+        // The names below the target of a DNAME are generated as names below its owner, which may be the root.
         name.push_back(node_labels);
     }
     size_t nodeLen = 0;
diff --git a/src/zone-graph.cpp b/src/zone-graph.cpp
index 4c0f2d8..fb9d562 100644
--- a/src/zone-graph.cpp
+++ b/src/zone-graph.cpp
@@ -231,6 +231,10 @@ zone::Graph::VertexDescriptor zone::Graph::GetClosestEncloser(
     if (labels.size() == index) {
         return closest_encloser;
     }
+    if (index == 0 && GetNodeRRTypes((*this)[closest_encloser].rrs)[RRType::DNAME] == 1) {
+        // A DNAME at the root takes precedence over everything below it, as it does at any other node.
+        return closest_encloser;
+    }
     if (vertex_to_child_map_.find(closest_encloser) != vertex_to_child_map_.end()) {
         const LabelToVertex &m = vertex_to_child_map_.find(closest_encloser)->second;
         auto it = m.find(labels[index]);
-- 
2.43.0


From f450ca0577d5d56383931219946c84614a5860e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:34 +0000
Subject: [PATCH 21/31] Simulation hook: threshold of the child index
 (GROOT_SIM_CHILD_MAP_THRESHOLD)

---
 src/node-label.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/node-label.h b/src/node-label.h
index 3b4577e..68f20fd 100644
--- a/src/node-label.h
+++ b/src/node-label.h
@@ -26,7 +26,12 @@
 using namespace std;
 using json = nlohmann::json;
 
+#ifdef GROOT_SIM_CHILD_MAP_THRESHOLD
+// Simulation only: lets small inputs reach the child index.
+#define kHashMapThreshold GROOT_SIM_CHILD_MAP_THRESHOLD
+#else
 #define kHashMapThreshold 500
+#endif
 #define kMaxLabelLength 63
 #define kMaxDomainLength 253
 
-- 
2.43.0


From 8dd5b0a0a3a1b9f6c90401d5704e00d340f76323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:10 +0000
Subject: [PATCH 22/31] fix: complete relative names in the data of PTR, SRV,
 SOA, NSEC and RRSIG records

---
 src/zone-file-parser.cpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 7aeb4a7..d7255bc 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -4,6 +4,8 @@
 #include <boost/config/warning_disable.hpp>
 #include <boost/ref.hpp>
 #include <boost/spirit/include/lex_lexertl.hpp>
+#include <map>
+#include <set>
 
 #include "driver.h"
 #include "utils.h"
@@ -201,12 +203,7 @@ struct Parser {
                     name = AbsoluteName(name, relative_domain_suffix);
                     default_values.set_name(name);
                 }
-                // compare returns zero when equal
-                if (!type.compare("NS") || !type.compare("CNAME") || !type.compare("DNAME") || !type.compare("MX")) {
-                    // The domain name is the last (for all but MX the only) field.
-                    auto name_start = rdata.rfind(' ') + 1;
-                    rdata = rdata.substr(0, name_start) + AbsoluteName(rdata.substr(name_start), relative_domain_suffix);
-                }
+                rdata = AbsoluteRdata(type, rdata, relative_domain_suffix);
                 boost::to_lower(rdata);
                 boost::to_lower(name);
                 mc.rrs_parsed++;
@@ -331,6 +328,26 @@ struct Parser {
         return relative_domain_suffix == "." ? name + "." : name + "." + relative_domain_suffix;
     }
 
+    string AbsoluteRdata(const string &type, const string &rdata, const string &relative_domain_suffix) const
+    {
+        // The fields of the rdata that are domain names.
+        static const std::map<string, std::set<size_t>> name_fields{
+            {"NS", {0}},  {"CNAME", {0}}, {"DNAME", {0}},  {"PTR", {0}},   {"MX", {1}},
+            {"SRV", {3}}, {"SOA", {0, 1}}, {"NSEC", {0}}, {"RRSIG", {7}}};
+        auto it = name_fields.find(type);
+        if (it == name_fields.end()) {
+            return rdata;
+        }
+        vector<string> fields;
+        boost::split(fields, rdata, [](char c) { return c == ' '; });
+        for (auto field : it->second) {
+            if (field < fields.size()) {
+                fields[field] = AbsoluteName(fields[field], relative_domain_suffix);
+            }
+        }
+        return boost::join(fields, " ");
+    }
+
     int GetTypeIndex(vector<string> &current_record) const
     {
         std::vector<string> types{"A",    "MX",  "NS",    "CNAME", "SOA",  "PTR", "TXT",
-- 
2.43.0


From fa6447d13d36ae5c34c508064ca04cfb5c24a96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:42 +0000
Subject: [PATCH 23/31] fix: let records of types that are not handled state
 the owner and TTL that later records omit

---
 src/zone-file-parser.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index d7255bc..2abf676 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -140,6 +140,7 @@ struct Parser {
                 if (typeIndex == -1) {
                     // Logger->warn(fmt::format("RR type not handled for the RR at line- {} in file- {}", l,
                     // mc.file_name));
+                    KeepDefaults(current_record, relative_domain_suffix, mc, default_values);
                     current_record.clear();
                     return true;
                 }
@@ -154,6 +155,7 @@ struct Parser {
                         "zone-file-parser.cpp (Parser()) - RR at line {} in file {} is not "
                         "following the DNS grammar (typeIndex > 3)",
                         l, mc.file_name));
+                    KeepDefaults(current_record, relative_domain_suffix, mc, default_values);
                     current_record.clear();
                     return true;
                 }
@@ -328,6 +330,28 @@ struct Parser {
         return relative_domain_suffix == "." ? name + "." : name + "." + relative_domain_suffix;
     }
 
+    // A record of a type that is not handled still states the owner and the TTL that later records may omit.
+    void KeepDefaults(
+        const vector<string> &record,
+        const string &relative_domain_suffix,
+        const MiniContext &mc,
+        ResourceRecord &default_values) const
+    {
+        if (record.size() < 2 || record[0][0] == '$') {
+            return;
+        }
+        if (!record[0].empty()) {
+            default_values.set_name(AbsoluteName(record[0], relative_domain_suffix));
+        }
+        for (size_t i = 1; i < 3 && i < record.size(); i++) {
+            if (isInteger(record[i]) && !mc.ttl_directive) {
+                default_values.set_ttl(strtol(record[i].c_str(), nullptr, 10));
+            } else if (!boost::iequals(record[i], "IN") && !boost::iequals(record[i], "CH")) {
+                return;
+            }
+        }
+    }
+
     string AbsoluteRdata(const string &type, const string &rdata, const string &relative_domain_suffix) const
     {
         // The fields of the rdata that are domain names.
-- 
2.43.0


From 5be24eb27565541f5b0fe84df2a26a4409038145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:50 +0000
Subject: [PATCH 24/31] fix: announce the median of the interpretation graph
 sizes

The P-square estimator depends on the order in which the threads deliver the
samples and yields 0 or an arbitrary sample for jobs with fewer than five
query classes.
---
 src/driver.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/driver.cpp b/src/driver.cpp
index 3be5558..cad86e0 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -430,23 +430,34 @@ void Driver::SetJob(string &domain_name)
     // current_job_.check_structural_delegations = true;
 }
 
+// The median accumulator of Boost only estimates, in a way that depends on the order of the samples, and gives no
+// median of fewer than five of them.
+static double Median(vector<int> values)
+{
+    if (values.empty()) {
+        return 0;
+    }
+    std::sort(begin(values), end(values));
+    return (values[(values.size() - 1) / 2] + values[values.size() / 2]) / 2.0;
+}
+
 void Driver::WriteStatsForAJob()
 {
 
     Logger->info(fmt::format("Number of ECs: {}", current_job_.stats.ec_count));
     /*auto [min, max] = std::minmax_element(
         begin(current_job_.stats.interpretation_vertices), end(current_job_.stats.interpretation_vertices));*/
-    accumulator_set<double, features<tag::mean, tag::median, tag::min, tag::max>> acc;
+    accumulator_set<double, features<tag::mean, tag::min, tag::max>> acc;
     for_each(
         begin(current_job_.stats.interpretation_vertices), end(current_job_.stats.interpretation_vertices), ref(acc));
     Logger->info(fmt::format(
         "Interpretation Graph Vertices: Max={}, Min={}, Mean={}, Median={}", boost::accumulators::max(acc),
-        boost::accumulators::min(acc), mean(acc), median(acc)));
+        boost::accumulators::min(acc), mean(acc), Median(current_job_.stats.interpretation_vertices)));
     acc = {};
     for_each(begin(current_job_.stats.interpretation_edges), end(current_job_.stats.interpretation_edges), ref(acc));
     Logger->info(fmt::format(
         "Interpretation Graph Edges: Max={}, Min={}, Mean={}, Median={}", boost::accumulators::max(acc),
-        boost::accumulators::min(acc), mean(acc), median(acc)));
+        boost::accumulators::min(acc), mean(acc), Median(current_job_.stats.interpretation_edges)));
 }
 
 void Driver::WriteViolationsToFile(string output_file) const
-- 
2.43.0


From 59e97a2263b92669066d228a2548d9e539199b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:20 +0000
Subject: [PATCH 25/31] fix: write reports and lint entries with record data
 that is not UTF-8

---
 src/driver.cpp | 2 +-
 src/utils.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/driver.cpp b/src/driver.cpp
index cad86e0..904995e 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -471,7 +471,7 @@ void Driver::WriteViolationsToFile(string output_file) const
     for (const json &j : property_violations_) {
         if (c != 0)
             ofs << ",\n";
-        ofs << j.dump(4);
+        ofs << j.dump(4, ' ', false, json::error_handler_t::replace);
         c++;
     }
     ofs << "\n]";
diff --git a/src/utils.cpp b/src/utils.cpp
index 19ae55e..dd453d9 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -209,7 +209,7 @@ void LintUtils::WriteIssueToFile(json &log_line, bool lint)
         std::ofstream out("lint.json", ios::app);
         if (i > 3)
             out << ",\n";
-        out << log_line.dump(4);
+        out << log_line.dump(4, ' ', false, json::error_handler_t::replace);
         out.close();
         if (!out) {
             throw std::runtime_error("Unable to write to the file lint.json");
-- 
2.43.0


From bc366732e04a6778238a1688b94269ac26b34cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:20 +0000
Subject: [PATCH 26/31] fix: let a backslash escape quotes, semicolons and
 blanks in zone files

---
 src/zone-file-parser.cpp | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 2abf676..e682915 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -36,8 +36,9 @@ enum TokenIds {
 template <typename Lexer> struct zone_file_tokens : lex::lexer<Lexer> {
     zone_file_tokens()
     {
-        this->self.add("\\\"[^\\\"]*\\\"", ID_TEXT_WORD)(";[^\n]+", ID_COMMENT)(
-            "((\\\\\\()*(\\\\\\))*[^ ;\t\r\n\\(\\)\\\"]+)+",
+        // A backslash takes the special meaning from the character after it, within quotes or not.
+        this->self.add("\\\"(\\\\(.|\n)|[^\\\\\\\"])*\\\"", ID_TEXT_WORD)(";[^\n]+", ID_COMMENT)(
+            "(\\\\[^\r\n]|[^ ;\t\r\n\\(\\)\\\"\\\\])+",
             ID_WORD)("\\(", ID_LPAREN)("\\)", ID_RPAREN)("\n", ID_EOL)("[ \t]+", ID_WHITESPACE)(".", ID_OTHER);
     }
 };
@@ -146,7 +147,7 @@ struct Parser {
                 }
                 string type = current_record[typeIndex];
                 boost::to_upper(type);
-                string rdata = "";
+                vector<string> rdata_fields;
                 uint16_t class_ = 1;
                 uint32_t ttl = default_values.get_ttl();
                 int i = 0;
@@ -161,7 +162,7 @@ struct Parser {
                 }
                 for (auto &field : current_record) {
                     if (i > typeIndex) {
-                        rdata += field + " ";
+                        rdata_fields.push_back(field);
                     }
                     if (i < typeIndex) {
                         if (i == 0) {
@@ -192,7 +193,6 @@ struct Parser {
                     }
                     i++;
                 }
-                rdata = rdata.substr(0, rdata.size() - 1);
                 if (name.length() == 0) {
                     name = LabelUtils::LabelsToString(default_values.get_name());
                 } else if (type == "SOA") {
@@ -205,7 +205,7 @@ struct Parser {
                     name = AbsoluteName(name, relative_domain_suffix);
                     default_values.set_name(name);
                 }
-                rdata = AbsoluteRdata(type, rdata, relative_domain_suffix);
+                string rdata = JoinRdata(type, std::move(rdata_fields), relative_domain_suffix);
                 boost::to_lower(rdata);
                 boost::to_lower(name);
                 mc.rrs_parsed++;
@@ -352,21 +352,18 @@ struct Parser {
         }
     }
 
-    string AbsoluteRdata(const string &type, const string &rdata, const string &relative_domain_suffix) const
+    string JoinRdata(const string &type, vector<string> fields, const string &relative_domain_suffix) const
     {
         // The fields of the rdata that are domain names.
         static const std::map<string, std::set<size_t>> name_fields{
             {"NS", {0}},  {"CNAME", {0}}, {"DNAME", {0}},  {"PTR", {0}},   {"MX", {1}},
             {"SRV", {3}}, {"SOA", {0, 1}}, {"NSEC", {0}}, {"RRSIG", {7}}};
         auto it = name_fields.find(type);
-        if (it == name_fields.end()) {
-            return rdata;
-        }
-        vector<string> fields;
-        boost::split(fields, rdata, [](char c) { return c == ' '; });
-        for (auto field : it->second) {
-            if (field < fields.size()) {
-                fields[field] = AbsoluteName(fields[field], relative_domain_suffix);
+        if (it != name_fields.end()) {
+            for (auto field : it->second) {
+                if (field < fields.size()) {
+                    fields[field] = AbsoluteName(fields[field], relative_domain_suffix);
+                }
             }
         }
         return boost::join(fields, " ");
-- 
2.43.0


From f8b28be36f8e726aea36242e8bb9ffce6eca7f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:03 +0000
Subject: [PATCH 27/31] fix: name the query whose answers differ, or whose
 answer has a zero TTL

Response Consistency and Zero TTL entries named the query of whichever
end node came first, which need not be the one the entry is about and
depends on the order of the records in the zone files.
---
 src/properties.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/properties.cpp b/src/properties.cpp
index c9d9ae1..6ac2559 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -211,7 +211,7 @@ void interpretation::Graph::Properties::CheckSameResponseReturned(
     if (foundDiff) {
         json tmp;
         tmp["Property"] = "Response Consistency";
-        tmp["Query"] = graph[end_nodes[0]].query.ToString();
+        tmp["Query"] = graph[graph.root_].query.ToString();
         QueueUtils::Enqueue(json_queue, tmp);
     }
 }
@@ -239,7 +239,7 @@ void interpretation::Graph::Properties::ZeroTTL(
                         if (r.get_ttl() == 0 && typesReq[r.get_type()]) {
                             json tmp;
                             tmp["Property"] = "Zero TTL";
-                            tmp["Query"] = graph[end_nodes[0]].query.ToString();
+                            tmp["Query"] = graph[vd].query.ToString();
                             tmp["Violation"]["Nameserver"] = graph[vd].ns;
                             tmp["Violation"]["Record"] = r.toString();
                             QueueUtils::Enqueue(json_queue, tmp);
-- 
2.43.0


From c654a548b80101b142277dce2b34b3da529f72c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:35 +0000
Subject: [PATCH 28/31] fix: refuse jobs that lack a part or have one of the
 wrong kind

A missing key was looked up in a constant JSON object without a check,
which reads memory beyond the object, and a value of the wrong kind
was only noticed by a worker, which ended the program by a signal.
---
 src/driver.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/driver.cpp b/src/driver.cpp
index 904995e..d5ce37e 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -211,20 +211,20 @@ long Driver::SetContext(const json &metadata, string directory, bool lint)
 
 void Driver::SetJob(const json &user_job)
 {
-    string d = string(user_job["Domain"]);
+    string d = string(user_job.at("Domain"));
     boost::to_lower(d);
     current_job_.stats.ec_count = 0;
     current_job_.stats.interpretation_edges.clear();
     current_job_.stats.interpretation_vertices.clear();
     current_job_.user_input_domain = d;
-    current_job_.check_subdomains = user_job["SubDomain"];
+    current_job_.check_subdomains = user_job.at("SubDomain");
     current_job_.path_functions.clear();
     current_job_.node_functions.clear();
     current_job_.types_req = {};
     current_job_.check_structural_delegations = false;
 
-    for (auto &property : user_job["Properties"]) {
-        string name = property["PropertyName"];
+    for (auto &property : user_job.at("Properties")) {
+        string name = property.at("PropertyName");
         std::bitset<RRType::N> propertyTypes;
         if (property.find("Types") != property.end()) {
             for (auto typ : property["Types"]) {
@@ -252,7 +252,7 @@ void Driver::SetJob(const json &user_job)
             current_job_.node_functions.push_back(la);
         } else if (name == "ResponseValue") {
             std::set<string> values;
-            for (string v : property["Value"]) {
+            for (string v : property.at("Value")) {
                 // The data of the records is in lower case too.
                 boost::to_lower(v);
                 values.insert(v);
@@ -272,14 +272,14 @@ void Driver::SetJob(const json &user_job)
                     string(user_job["Domain"])));
             }
         } else if (name == "Hops") {
-            auto l = [num_hops = property["Value"]](
+            auto l = [num_hops = property.at("Value").get<int>()](
                          const interpretation::Graph &graph, const interpretation::Graph::Path &p,
                          moodycamel::ConcurrentQueue<json> &json_queue) {
                 interpretation::Graph::Properties::NumberOfHops(graph, p, json_queue, num_hops);
             };
             current_job_.path_functions.push_back(l);
         } else if (name == "Rewrites") {
-            auto l = [num_rewrites = property["Value"]](
+            auto l = [num_rewrites = property.at("Value").get<int>()](
                          const interpretation::Graph &graph, const interpretation::Graph::Path &p,
                          moodycamel::ConcurrentQueue<json> &json_queue) {
                 interpretation::Graph::Properties::NumberOfRewrites(graph, p, json_queue, num_rewrites);
@@ -305,7 +305,7 @@ void Driver::SetJob(const json &user_job)
             current_job_.path_functions.push_back(l);
         } else if (name == "QueryRewrite") {
             vector<vector<NodeLabel>> allowed_domains;
-            for (string v : property["Value"]) {
+            for (string v : property.at("Value")) {
                 boost::to_lower(v);
                 allowed_domains.push_back(LabelUtils::StringToLabels(v));
             }
@@ -323,7 +323,7 @@ void Driver::SetJob(const json &user_job)
             }
         } else if (name == "NameserverContact") {
             vector<vector<NodeLabel>> allowed_domains;
-            for (string v : property["Value"]) {
+            for (string v : property.at("Value")) {
                 boost::to_lower(v);
                 allowed_domains.push_back(LabelUtils::StringToLabels(v));
             }
@@ -344,7 +344,7 @@ void Driver::SetJob(const json &user_job)
             current_job_.path_functions.push_back(interpretation::Graph::Properties::RewriteBlackholing);
         } else if (name == "AllAliases") {
             vector<vector<NodeLabel>> canonical_names;
-            for (string v : property["Value"]) {
+            for (string v : property.at("Value")) {
                 boost::to_lower(v);
                 canonical_names.push_back(LabelUtils::StringToLabels(v));
             }
-- 
2.43.0


From c09b15555a9a6d1426696547d6ff487ad8c8aeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:34 +0000
Subject: [PATCH 29/31] fix: do not end the program for a zone file that was
 ignored

The names of a zone file without SOA record are in the label graph, and
the structural delegation check came across them: its message lacked an
argument, so that formatting it threw and ended the program.
---
 src/label-graph.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/label-graph.cpp b/src/label-graph.cpp
index 044cb69..38da8a5 100644
--- a/src/label-graph.cpp
+++ b/src/label-graph.cpp
@@ -222,9 +222,10 @@ void label::Graph::CheckStructuralDelegationConsistency(
                     }
                 }
             } else {
-                Logger->critical(fmt::format("label-graph.cpp (CheckStructuralDelegationConsistency) - ZoneId {} not "
-                                             "found in the Name Server ZoneIds map"));
-                exit(EXIT_FAILURE);
+                // The zone file has no SOA record and was ignored.
+                Logger->debug(fmt::format(
+                    "label-graph.cpp (CheckStructuralDelegationConsistency) - ZoneId {} is not a zone",
+                    std::get<0>(zoneId_vertexId_pair)));
             }
         }
         // Remove unnecessary glue records from parents - This case arises when some of the NS records require glue
-- 
2.43.0


From 95d4fca5d0e1693fd6083fd0c762342cfd346823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:33 +0000
Subject: [PATCH 30/31] fix: report $ORIGIN and $TTL without a value

The value was read from behind the end of the list of fields.
---
 src/zone-file-parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index e682915..d58674e 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -99,6 +99,12 @@ struct Parser {
         case ID_EOL:
             ++l;
             if (paren_count == 0 && current_record.size() > 0) {
+                if (current_record.size() == 1 && (current_record[0] == "$ORIGIN" || current_record[0] == "$TTL")) {
+                    Logger->error(fmt::format(
+                        "zone-file-parser.cpp (Parser()) - Found {} without a value at line - {} in file - {}",
+                        current_record[0], l, mc.file_name));
+                    return false;
+                }
                 // Control entry $ORIGIN - Sets the origin for relative domain names
                 if (current_record[0].compare("$ORIGIN") == 0) {
                     relative_domain_suffix = AbsoluteName(current_record[1], relative_domain_suffix);
-- 
2.43.0


From df1719ba2e30aa0b9dc7535d6cd2ee160ff6c8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:49 +0000
Subject: [PATCH 31/31] fix: end a label at a dot behind an escaped backslash,
 and keep a name that ends with an escaped dot relative

---
 src/utils.cpp            | 27 +++++++++++++++++++--------
 src/utils.h              |  1 +
 src/zone-file-parser.cpp |  4 ++--
 3 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index dd453d9..82d3a34 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -50,29 +50,40 @@ tuple<bool, string> LabelUtils::LengthCheck(vector<NodeLabel> domain_labels, int
     return {true, ""};
 }
 
+bool LabelUtils::IsAbsolute(const string &domain_name)
+{
+    if (domain_name.empty() || domain_name.back() != '.') {
+        return false;
+    }
+    // The dot belongs to the last label if a backslash, which is not escaped itself, precedes it.
+    size_t backslashes = 0;
+    while (backslashes + 1 < domain_name.length() && domain_name[domain_name.length() - 2 - backslashes] == '\\') {
+        backslashes++;
+    }
+    return backslashes % 2 == 0;
+}
+
 vector<NodeLabel> LabelUtils::StringToLabels(string domain_name)
 {
     vector<NodeLabel> tokens;
     if (domain_name.length() == 0) {
         return tokens;
     }
-    if (domain_name[domain_name.length() - 1] != '.') {
+    if (!IsAbsolute(domain_name)) {
         domain_name += ".";
     }
     // boost::algorithm::split(labels, name, boost::is_any_of(".")); // Avoiding this for the case where . is written
     // with \. and root zone.
     string previous = "";
+    bool escaped = false; // by the previous character, a backslash that is not escaped itself
     for (auto it = domain_name.begin(); it < domain_name.end(); ++it) {
-        if (*it == '.' && previous.length() > 0) {
-            if (previous.back() == '\\') {
-                previous += *it;
-            } else {
-                tokens.push_back(std::move(previous));
-                previous = "";
-            }
+        if (*it == '.' && previous.length() > 0 && !escaped) {
+            tokens.push_back(std::move(previous));
+            previous = "";
         } else {
             previous += *it;
         }
+        escaped = *it == '\\' && !escaped;
     }
     std::reverse(tokens.begin(), tokens.end());
     return tokens;
diff --git a/src/utils.h b/src/utils.h
index 13a63c5..4a85033 100644
--- a/src/utils.h
+++ b/src/utils.h
@@ -10,6 +10,7 @@
 class LabelUtils
 {
   public:
+    static bool IsAbsolute(const string &);
     static string LabelsToString(vector<NodeLabel>);
     static string LabelsToString(vector<vector<NodeLabel>>);
     static tuple<bool, string> LengthCheck(vector<NodeLabel>, int);
diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index d58674e..23fbaee 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -207,7 +207,7 @@ struct Parser {
                         relative_domain_suffix = name;
                     }
                 }
-                if (!boost::algorithm::ends_with(name, ".")) {
+                if (!LabelUtils::IsAbsolute(name)) {
                     name = AbsoluteName(name, relative_domain_suffix);
                     default_values.set_name(name);
                 }
@@ -327,7 +327,7 @@ struct Parser {
 
     string AbsoluteName(const string &name, const string &relative_domain_suffix) const
     {
-        if (boost::algorithm::ends_with(name, ".")) {
+        if (LabelUtils::IsAbsolute(name)) {
             return name;
         }
         if (name == "@") {
-- 
2.43.0

