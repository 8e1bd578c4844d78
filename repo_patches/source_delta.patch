From d803a8c4882a651ba4203314f5acf07bfbe3706d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:02 +0000
Subject: [PATCH 01/59] fix: allow re-initialization of a logger with another
 file

std::ofstream::open() fails if the stream is already associated with a
file, so a logger which had ever been initialized with a file could not be
re-initialized with a file.
---
 core/include/humoto/logger.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/include/humoto/logger.h b/core/include/humoto/logger.h
index 82b25d8..134f086 100644
--- a/core/include/humoto/logger.h
+++ b/core/include/humoto/logger.h
@@ -422,6 +422,10 @@ namespace humoto
              */
             void initialize(const std::string &output_filename)
             {
+                if (output_file_stream_.is_open())
+                {
+                    output_file_stream_.close();
+                }
                 file_stream_is_open_ = true;
 
                 output_file_stream_.open(output_filename.c_str());
-- 
2.43.0


From 3c988b0c9cec62f0f66c710133fbaeca040fec14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:13 +0000
Subject: [PATCH 02/59] fix: release the log queue when a message cannot be
 enqueued

If the queue failed to allocate memory the exception left the mutex locked,
which blocked all subsequent logging calls and the destructor.
---
 core/include/humoto/logger.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/include/humoto/logger.h b/core/include/humoto/logger.h
index 134f086..9ad31c7 100644
--- a/core/include/humoto/logger.h
+++ b/core/include/humoto/logger.h
@@ -580,7 +580,16 @@ namespace humoto
             void pushMessage(LogMessageBase * msg)
             {
                 message_queue_mutex_.lock();
-                message_queue_.push(msg);
+                try
+                {
+                    message_queue_.push(msg);
+                }
+                catch (...)
+                {
+                    message_queue_mutex_.unlock();
+                    delete msg;
+                    throw;
+                }
                 message_queue_mutex_.unlock();
             }
 
-- 
2.43.0


From 96e675202cd51e37f35f352d405c6ccf7fb55bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:13 +0000
Subject: [PATCH 03/59] fix: keep logger consistent when its thread cannot be
 started

The logger considered the thread to be running, the destructor tried to join
it and terminated the program.
---
 core/include/humoto/logger.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/include/humoto/logger.h b/core/include/humoto/logger.h
index 9ad31c7..e1e354b 100644
--- a/core/include/humoto/logger.h
+++ b/core/include/humoto/logger.h
@@ -669,7 +669,15 @@ namespace humoto
             void start()
             {
                 interrupted_ = false;
-                processor_thread_ = boost::thread(&humoto::Logger::processQueue, this);
+                try
+                {
+                    processor_thread_ = boost::thread(&humoto::Logger::processQueue, this);
+                }
+                catch (...)
+                {
+                    interrupted_ = true;
+                    throw;
+                }
             }
 
 
-- 
2.43.0


From 09ea8ded27cc9981eb22b664c15e78d6ea4b58ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:13 +0000
Subject: [PATCH 04/59] fix: quote C strings when logging without a thread

C strings were written without quotes if logging did not use a thread.
---
 core/include/humoto/logger.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/core/include/humoto/logger.h b/core/include/humoto/logger.h
index e1e354b..2e24dcf 100644
--- a/core/include/humoto/logger.h
+++ b/core/include/humoto/logger.h
@@ -983,6 +983,19 @@ namespace humoto
                 OctaveFormatter::formatAndOutputEntry(output_stream_, name.getAsString(), data);
                 output_stream_->flush();
             }
+
+
+            /**
+             * @brief Log data (string)
+             *
+             * @param[in] name
+             * @param[in] string
+             */
+            void  log(  const LogEntryName & name,
+                        const char *string)
+            {
+                log(name, std::string(string));
+            }
     };
 #endif // HUMOTO_USE_THREADS_FOR_LOGGING
 }
-- 
2.43.0


From 37c25e7b33b72acd94ade15c5684f6710bff4fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:11 +0000
Subject: [PATCH 05/59] fix: write matrices to msgpack in the order expected by
 the reader

---
 bridges/config_msgpack/interface/config_msgpack/writer.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bridges/config_msgpack/interface/config_msgpack/writer.h b/bridges/config_msgpack/interface/config_msgpack/writer.h
index 31dc8c8..ea39f41 100644
--- a/bridges/config_msgpack/interface/config_msgpack/writer.h
+++ b/bridges/config_msgpack/interface/config_msgpack/writer.h
@@ -139,9 +139,13 @@ namespace humoto
                         packer_->pack("data");
                         packer_->pack_array(entry.size());
 
-                        for (humoto::EigenIndex i = 0; i < entry.size(); ++i)
+                        // the reader expects elements to be stored row by row
+                        for (humoto::EigenIndex i = 0; i < entry.rows(); ++i)
                         {
-                            packer_->pack(entry.data()[i]);
+                            for (humoto::EigenIndex j = 0; j < entry.cols(); ++j)
+                            {
+                                packer_->pack(entry(i, j));
+                            }
                         }
 
                         ascend();
-- 
2.43.0


From f51515c16db6b7cc9228e396f4a62ce193afdb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:11 +0000
Subject: [PATCH 06/59] fix: report failures to write a msgpack configuration
 file

---
 bridges/config_msgpack/interface/config_msgpack/writer.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bridges/config_msgpack/interface/config_msgpack/writer.h b/bridges/config_msgpack/interface/config_msgpack/writer.h
index ea39f41..44ab3d4 100644
--- a/bridges/config_msgpack/interface/config_msgpack/writer.h
+++ b/bridges/config_msgpack/interface/config_msgpack/writer.h
@@ -232,6 +232,11 @@ namespace humoto
                     void flush()
                     {
                         config_ofs_.flush();
+
+                        if (!config_ofs_.good())
+                        {
+                            HUMOTO_THROW_MSG("Could not write configuration file.");
+                        }
                     }
             };
         }
-- 
2.43.0


From b3255920d44812c34aa6e6f8e9f0fbd7a4d68e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:11 +0000
Subject: [PATCH 07/59] fix: do not read past the end of empty root nodes in
 msgpack files

---
 bridges/config_msgpack/interface/config_msgpack/reader.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bridges/config_msgpack/interface/config_msgpack/reader.h b/bridges/config_msgpack/interface/config_msgpack/reader.h
index c4d1168..b8210c0 100644
--- a/bridges/config_msgpack/interface/config_msgpack/reader.h
+++ b/bridges/config_msgpack/interface/config_msgpack/reader.h
@@ -120,7 +120,8 @@ namespace humoto
                         {
                             for (std::size_t i = 0; i < handles_.size(); ++i)
                             {
-                                if (::msgpack::type::MAP == handles_[i]->get().type)
+                                if ((::msgpack::type::MAP == handles_[i]->get().type)
+                                        && (handles_[i]->get().via.map.size > 0))
                                 {
                                     if (child_name == handles_[i]->get().via.map.ptr[0].key.as<std::string>())
                                     {
-- 
2.43.0


From b28ac870d662a587c231a6078fd8872e3d922373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:11 +0000
Subject: [PATCH 08/59] fix: check dimensions of matrices read from msgpack
 files

---
 bridges/config_msgpack/interface/config_msgpack/reader.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bridges/config_msgpack/interface/config_msgpack/reader.h b/bridges/config_msgpack/interface/config_msgpack/reader.h
index b8210c0..13b0884 100644
--- a/bridges/config_msgpack/interface/config_msgpack/reader.h
+++ b/bridges/config_msgpack/interface/config_msgpack/reader.h
@@ -245,8 +245,13 @@ namespace humoto
                             Eigen::VectorXd v;
                             readCompound(v, "data", true);
 
-                            HUMOTO_ASSERT(  v.rows() == num_rows*num_cols,
+                            HUMOTO_ASSERT(  (num_rows >= 0) && (num_cols >= 0)
+                                                && ((0 == num_rows) || (num_cols <= v.rows() / num_rows))
+                                                && (v.rows() == num_rows*num_cols),
                                             std::string("Inconsistent configuration file entry: ") + entry_name);
+                            HUMOTO_ASSERT(  ((Eigen::Dynamic == t_rows) || (t_rows == num_rows))
+                                                && ((Eigen::Dynamic == t_cols) || (t_cols == num_cols)),
+                                            std::string("Wrong size of configuration file entry: ") + entry_name);
 
                             Eigen::Map< Eigen::Matrix<  double,
                                                         Eigen::Dynamic,
-- 
2.43.0


From b292117ddea404b97d42af33f91c7718f243ab0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:11 +0000
Subject: [PATCH 09/59] fix: report errors on reading of a msgpack
 configuration file

---
 .../interface/config_msgpack/reader.h               | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bridges/config_msgpack/interface/config_msgpack/reader.h b/bridges/config_msgpack/interface/config_msgpack/reader.h
index 13b0884..9b1ef0c 100644
--- a/bridges/config_msgpack/interface/config_msgpack/reader.h
+++ b/bridges/config_msgpack/interface/config_msgpack/reader.h
@@ -51,9 +51,16 @@ namespace humoto
                         }
 
 
-                        std::stringstream   str_stream;
-                        str_stream << config_ifs_.rdbuf();
-                        buffer_ = str_stream.str();
+                        try
+                        {
+                            // iterators are used here since operator<< conceals reading errors
+                            buffer_.assign( std::istreambuf_iterator<char>(config_ifs_.rdbuf()),
+                                            std::istreambuf_iterator<char>());
+                        }
+                        catch(const std::exception &e)
+                        {
+                            HUMOTO_THROW_MSG(std::string("Could not read configuration file: ") + file_name + ": " + e.what());
+                        }
 
 
                         handles_.clear();
-- 
2.43.0


From c233059ddc1924df051c3fde6863b49c838fb658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:11 +0000
Subject: [PATCH 10/59] fix: do not dereference null pointer when task name is
 unknown

---
 core/include/humoto/configurable_optimization_problem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/humoto/configurable_optimization_problem.h b/core/include/humoto/configurable_optimization_problem.h
index 8200407..08bde1d 100644
--- a/core/include/humoto/configurable_optimization_problem.h
+++ b/core/include/humoto/configurable_optimization_problem.h
@@ -150,10 +150,10 @@ namespace humoto
                     for(std::size_t j = 0; j < task_class_names_[i].size(); ++j)
                     {
                         humoto::TaskSharedPointer task = getTask(task_class_names_[i][j]);
-                        task->setDescription(task_ids_[i][j]);
 
                         if (task)
                         {
+                            task->setDescription(task_ids_[i][j]);
                             // configure tasks
                             task->readConfig(reader, task_ids_[i][j], crash_on_missing_entry);
                             // push tasks into the stack/hierarchy
-- 
2.43.0


From 551c434a3261e07dfd6c16838ff89f77b54c0a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:11 +0000
Subject: [PATCH 11/59] fix: reset task ids to defaults together with task
 class names

---
 core/include/humoto/configurable_optimization_problem.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/include/humoto/configurable_optimization_problem.h b/core/include/humoto/configurable_optimization_problem.h
index 08bde1d..e28a02a 100644
--- a/core/include/humoto/configurable_optimization_problem.h
+++ b/core/include/humoto/configurable_optimization_problem.h
@@ -84,6 +84,7 @@ namespace humoto
             void setDefaults()
             {
                 task_class_names_.clear();
+                task_ids_.clear();
             }
 
 
-- 
2.43.0


From 2783eddef27df35e04320701761c536166103b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:45 +0000
Subject: [PATCH 12/59] fix: reset all solver parameters to defaults when
 configuration is read

---
 bridges/QuadProgpp/interface/quadprogpp/solver.h | 1 +
 bridges/qpOASES/interface/qpoases/solver.h       | 2 ++
 bridges/qpmad/interface/qpmad/solver.h           | 3 +++
 core/include/kktsolver.h                         | 1 +
 4 files changed, 7 insertions(+)

diff --git a/bridges/QuadProgpp/interface/quadprogpp/solver.h b/bridges/QuadProgpp/interface/quadprogpp/solver.h
index 62484f3..b374a76 100644
--- a/bridges/QuadProgpp/interface/quadprogpp/solver.h
+++ b/bridges/QuadProgpp/interface/quadprogpp/solver.h
@@ -33,6 +33,7 @@ namespace humoto
             public:
                 void setDefaults()
                 {
+                    humoto::SolverParametersBase::setDefaults();
                     regularization_factor_ = 0;
                 }
 
diff --git a/bridges/qpOASES/interface/qpoases/solver.h b/bridges/qpOASES/interface/qpoases/solver.h
index 6cf85a0..5639cea 100644
--- a/bridges/qpOASES/interface/qpoases/solver.h
+++ b/bridges/qpOASES/interface/qpoases/solver.h
@@ -104,6 +104,8 @@ namespace humoto
             public:
                 void setDefaults()
                 {
+                    humoto::SolverParametersBase::setDefaults();
+                    options_.setDefaults();
                     max_number_of_iterations_ = 1000;
                     max_cpu_time_ = 0.0;
                 }
diff --git a/bridges/qpmad/interface/qpmad/solver.h b/bridges/qpmad/interface/qpmad/solver.h
index d858a6e..0cacc83 100644
--- a/bridges/qpmad/interface/qpmad/solver.h
+++ b/bridges/qpmad/interface/qpmad/solver.h
@@ -41,6 +41,7 @@ namespace humoto
                     protected:
                         void setDefaults()
                         {
+                            static_cast< ::qpmad::SolverParameters & >(*this) = ::qpmad::SolverParameters();
                         }
 
                     public:
@@ -59,7 +60,9 @@ namespace humoto
             public:
                 void setDefaults()
                 {
+                    humoto::SolverParametersBase::setDefaults();
                     regularization_factor_ = 0;
+                    options_ = QPmadParameters();
                 }
 
                 /**
diff --git a/core/include/kktsolver.h b/core/include/kktsolver.h
index 31ddbec..b91320b 100644
--- a/core/include/kktsolver.h
+++ b/core/include/kktsolver.h
@@ -66,6 +66,7 @@ namespace humoto
             public:
                 void setDefaults()
                 {
+                    humoto::SolverParametersBase::setDefaults();
                     solution_method_ = LU;
                     elimination_regularization_factor_ = 1e-08;
                 }
-- 
2.43.0


From 5b261222a6f5108f80390c5075ba739e7405eb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:55 +0000
Subject: [PATCH 13/59] fix: leave configuration nodes when reading fails

---
 .../interface/config_msgpack/reader.h         | 34 ++++++++++++++-----
 core/include/config.h                         | 11 +++++-
 2 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/bridges/config_msgpack/interface/config_msgpack/reader.h b/bridges/config_msgpack/interface/config_msgpack/reader.h
index 9b1ef0c..56fae25 100644
--- a/bridges/config_msgpack/interface/config_msgpack/reader.h
+++ b/bridges/config_msgpack/interface/config_msgpack/reader.h
@@ -82,6 +82,21 @@ namespace humoto
                     }
 
 
+                    /**
+                     * @brief Returns to the parent node on leaving of a scope,
+                     * including the cases when an exception is thrown.
+                     */
+                    class NodeScope
+                    {
+                        private:
+                            Reader  & reader_;
+
+                        public:
+                            explicit NodeScope(Reader & reader) : reader_(reader) {}
+                            ~NodeScope() { reader_.ascend(); }
+                    };
+
+
                     /**
                      * @brief Get current node
                      *
@@ -189,6 +204,8 @@ namespace humoto
                     {
                         if (descend(entry_name))
                         {
+                            NodeScope scope(*this);
+
                             HUMOTO_ASSERT(  (::msgpack::type::ARRAY == getCurrentNode()->type),
                                             "[Config] Entry is not an array.");
 
@@ -206,8 +223,6 @@ namespace humoto
                             {
                                 getCurrentNode()->via.array.ptr[i] >> entry[i];
                             }
-
-                            ascend();
                         }
                         else
                         {
@@ -242,6 +257,8 @@ namespace humoto
                     {
                         if (descend(entry_name))
                         {
+                            NodeScope scope(*this);
+
                             humoto::EigenIndex num_rows;
                             humoto::EigenIndex num_cols;
 
@@ -267,8 +284,6 @@ namespace humoto
                                                                                 num_rows,
                                                                                 num_cols);
                             entry = map;
-
-                            ascend();
                         }
                         else
                         {
@@ -296,6 +311,8 @@ namespace humoto
                     {
                         if (descend(entry_name))
                         {
+                            NodeScope scope(*this);
+
                             HUMOTO_ASSERT(  (::msgpack::type::ARRAY == getCurrentNode()->type),
                                             "[Config] Entry is not an array.");
 
@@ -305,8 +322,6 @@ namespace humoto
                             {
                                 getCurrentNode()->via.array.ptr[i] >> entry[i];
                             }
-
-                            ascend();
                         }
                         else
                         {
@@ -335,8 +350,9 @@ namespace humoto
                     {
                         if (descend(entry_name))
                         {
+                            NodeScope scope(*this);
+
                             *getCurrentNode() >> entry;
-                            ascend();
                         }
                         else
                         {
@@ -365,12 +381,12 @@ namespace humoto
                     {
                         if (descend(entry_name))
                         {
+                            NodeScope scope(*this);
+
                             int tmp_value = 0;
                             *getCurrentNode() >> tmp_value;
 
                             entry = static_cast<t_EnumerationType> (tmp_value);
-
-                            ascend();
                         }
                         else
                         {
diff --git a/core/include/config.h b/core/include/config.h
index 6672d75..c2bcc10 100644
--- a/core/include/config.h
+++ b/core/include/config.h
@@ -133,12 +133,16 @@ namespace humoto
                                                 const std::string   & node_name,
                                                 const bool          crash_on_missing_entry = default_crash_on_missing_entry_)
                     {
+                        bool is_descended = false;
+
                         try
                         {
                             setDefaults();
-                            if (reader.descend(node_name))
+                            is_descended = reader.descend(node_name);
+                            if (is_descended)
                             {
                                 readConfigEntries(reader, crash_on_missing_entry);
+                                is_descended = false;
                                 reader.ascend();
                             }
                             else
@@ -151,6 +155,11 @@ namespace humoto
                         }
                         catch(const std::exception &e)
                         {
+                            if (is_descended)
+                            {
+                                // leave the node, so that the reader can be used again
+                                reader.ascend();
+                            }
                             HUMOTO_THROW_MSG(std::string("Failed to parse node <") + node_name + "> in the configuration file: " + e.what());
                         }
                     }
-- 
2.43.0


From 50fd8c49a8fd39cff975d319d0a58b48848a6e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:32 +0000
Subject: [PATCH 14/59] fix: reject zero subsampling time instead of dividing
 by it

---
 modules/wpg04/include/wpg04/common.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/wpg04/include/wpg04/common.h b/modules/wpg04/include/wpg04/common.h
index f38829a..3a5b012 100644
--- a/modules/wpg04/include/wpg04/common.h
+++ b/modules/wpg04/include/wpg04/common.h
@@ -113,6 +113,12 @@ namespace humoto
                  */
                 void finalize()
                 {
+                    if (0 == subsampling_time_ms_)
+                    {
+                        HUMOTO_THROW_MSG("Subsampling time must not be zero.");
+                    }
+
+
                     if (sampling_time_ms_ % subsampling_time_ms_ == 0)
                     {
                         subsamples_num_ = sampling_time_ms_ / subsampling_time_ms_;
-- 
2.43.0


From 4755d92e4ab803f4c6ac43e66e2ee31102b20bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:59 +0000
Subject: [PATCH 15/59] fix: preview of stances over an empty horizon

---
 core/include/walking/stance_finite_state_machine.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/walking/stance_finite_state_machine.h b/core/include/walking/stance_finite_state_machine.h
index 528bf6c..f3c75e2 100644
--- a/core/include/walking/stance_finite_state_machine.h
+++ b/core/include/walking/stance_finite_state_machine.h
@@ -356,7 +356,7 @@ namespace humoto
             }
 
             //always add one state afted TDS
-            if((not_enough_states == false) && (stance_types.back().type_ == StanceType::TDS))
+            if((not_enough_states == false) && (stance_types.empty() == false) && (stance_types.back().type_ == StanceType::TDS))
             {
                 if(stance_fsm.current_stance_.type_ == StanceType::TDS)
                 {
-- 
2.43.0


From 5388ebaaf2a6e826f1efd0e4c224fbce4a956f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:59 +0000
Subject: [PATCH 16/59] fix: do not make steps if type of the first single
 support is undefined

---
 core/include/walking/stance_finite_state_machine.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/include/walking/stance_finite_state_machine.h b/core/include/walking/stance_finite_state_machine.h
index f3c75e2..5570be2 100644
--- a/core/include/walking/stance_finite_state_machine.h
+++ b/core/include/walking/stance_finite_state_machine.h
@@ -262,6 +262,7 @@ namespace humoto
                                 case StanceType::UNDEFINED:
                                     current_stance_.previous_nonds_stance_type_ = StanceType::UNDEFINED;
                                     sfsm_params_.num_steps_ = 0;
+                                    ss_states_to_termination_ = 0;
                                     break;
                                 default:
                                     HUMOTO_THROW_MSG("Misformed walking options.");
-- 
2.43.0


From 77c9b01342ea4c6c892d7e6a8f901acd1364f26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:59 +0000
Subject: [PATCH 17/59] fix: avoid infinite loop if duration of the last stance
 is zero

---
 core/include/walking/stance_finite_state_machine.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/include/walking/stance_finite_state_machine.h b/core/include/walking/stance_finite_state_machine.h
index 5570be2..ee342de 100644
--- a/core/include/walking/stance_finite_state_machine.h
+++ b/core/include/walking/stance_finite_state_machine.h
@@ -419,6 +419,14 @@ namespace humoto
                 }
                 else
                 {
+                    if ((ss_states_to_termination_ == 0)
+                            && (current_stance_.type_ == StanceType::DS)
+                            && (sfsm_params_.getDurationMs(StanceType::DS) == 0))
+                    {
+                        // there is nothing but empty stances ahead
+                        current_time_ms_ = current_stance_.duration_ms_;
+                        break;
+                    }
                     time_ms -= (current_stance_.duration_ms_ - current_time_ms_);
                     shiftStance();
                 }
-- 
2.43.0


From f8a9858ba2e62a4dee3985b7782aee6c1fdd63cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:12 +0000
Subject: [PATCH 18/59] fix: implement computation of A'b for constraints x[I]
 = b

---
 core/include/humoto/constraints.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/core/include/humoto/constraints.h b/core/include/humoto/constraints.h
index d2e2ae6..bc50a0b 100644
--- a/core/include/humoto/constraints.h
+++ b/core/include/humoto/constraints.h
@@ -981,7 +981,18 @@ namespace humoto
                 ConstraintsIB() {}
 
 
+                /// @copydoc humoto::constraints::BoundsB0Mixin::getATb
+                void addATb(Eigen::VectorXd &g) const
+                {
+                    for (EigenIndex i = 0; i < getIndices().rows(); ++i)
+                    {
+                        g[getIndices()[i]] += getB()[i];
+                    }
+                }
+
+
             public:
+                using HUMOTO_PARENT_CLASS_SHORTHAND::getNumberOfVariables;
                 using HUMOTO_PARENT_CLASS_SHORTHAND::getIndices;
                 using HUMOTO_PARENT_CLASS_SHORTHAND::getB;
 
@@ -1006,7 +1017,8 @@ namespace humoto
                 void getATAandATb(Eigen::MatrixXd &H, Eigen::VectorXd &g) const
                 {
                     HUMOTO_PARENT_CLASS_SHORTHAND::getATA(H);
-                    HUMOTO_PARENT_CLASS_SHORTHAND::getATb(g);
+                    g.setZero(getNumberOfVariables());
+                    addATb(g);
                 }
 
 
@@ -1014,7 +1026,7 @@ namespace humoto
                 void addATAandATb(Eigen::MatrixXd &H, Eigen::VectorXd &g) const
                 {
                     HUMOTO_PARENT_CLASS_SHORTHAND::addATA(H);
-                    HUMOTO_PARENT_CLASS_SHORTHAND::addATb(g);
+                    addATb(g);
                 }
         };
 #undef HUMOTO_PARENT_CLASS_SHORTHAND
-- 
2.43.0


From a0910d888a0db0e967a9af23524821b1ad25602e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:35 +0000
Subject: [PATCH 19/59] fix: drop constraints of an earlier hierarchy when
 there is only one level

---
 core/include/humoto/hierarchy.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/include/humoto/hierarchy.h b/core/include/humoto/hierarchy.h
index 131c12f..06ce457 100644
--- a/core/include/humoto/hierarchy.h
+++ b/core/include/humoto/hierarchy.h
@@ -344,6 +344,12 @@ namespace humoto
                 {
                     qp_problem.initializeConstraints(hierarchy_[0], sol_structure);
                 }
+                else
+                {
+                    // there are no constraints, but qp_problem may contain
+                    // constraints of another hierarchy
+                    qp_problem.initializeConstraints(HierarchyLevel(), sol_structure);
+                }
             }
     };
 }
-- 
2.43.0


From aaf2f78cf384f7caea430be841598f9d650c7ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:35 +0000
Subject: [PATCH 20/59] fix: form predefined tasks again when their gain
 changes or the last attempt failed

---
 core/include/humoto/task_generic.h | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/core/include/humoto/task_generic.h b/core/include/humoto/task_generic.h
index 315a347..2caac38 100644
--- a/core/include/humoto/task_generic.h
+++ b/core/include/humoto/task_generic.h
@@ -33,6 +33,7 @@ namespace humoto
 
         private:
             Location        location_of_variables_;
+            double          gain_of_variables_;
 
             std::string     variables_id_;
 
@@ -63,6 +64,7 @@ namespace humoto
                 : TaskGIB0(task_id.c_str(), gain)
             {
                 location_of_variables_.set(0,0);
+                gain_of_variables_ = 0.0;
 
                 variables_id_ = variables_id;
             }
@@ -91,22 +93,25 @@ namespace humoto
                 }
 
 
-                if ( location_of_variables != location_of_variables_ )
+                if ( (location_of_variables != location_of_variables_) || (getGain() != gain_of_variables_) )
                 {
-                    // Task was modified
-                    location_of_variables_ = location_of_variables;
-
+                    // Task was modified; if something fails below it must be
+                    // formed again next time
+                    location_of_variables_.set(0,0);
 
                     humoto::IndexVector &I  = getIndices();
                     Eigen::VectorXd &gains = getIGains();
 
-                    gains.setConstant(location_of_variables_.length_, getGain());
+                    gains.setConstant(location_of_variables.length_, getGain());
 
-                    I.resize(location_of_variables_.length_);
-                    for (std::size_t i = 0; i < location_of_variables_.length_; ++i)
+                    I.resize(location_of_variables.length_);
+                    for (std::size_t i = 0; i < location_of_variables.length_; ++i)
                     {
-                        I[i]     = location_of_variables_.offset_ + i;
+                        I[i]     = location_of_variables.offset_ + i;
                     }
+
+                    location_of_variables_ = location_of_variables;
+                    gain_of_variables_ = getGain();
                 }
                 else
                 {
@@ -211,9 +216,10 @@ namespace humoto
             {
                 if (number_of_variables_ != sol_structure.getNumberOfVariables())
                 {
-                    number_of_variables_ = sol_structure.getNumberOfVariables();
+                    // if something fails below the task must be formed again
+                    number_of_variables_ = 0;
 
-                    getA().resize(1, number_of_variables_);
+                    getA().resize(1, sol_structure.getNumberOfVariables());
                     getA().setConstant(1);
 
                     getLowerBounds().resize(1);
@@ -221,6 +227,8 @@ namespace humoto
 
                     getLowerBounds()[0] = 1;
                     getUpperBounds()[0] = -1;
+
+                    number_of_variables_ = sol_structure.getNumberOfVariables();
                 }
                 else
                 {
-- 
2.43.0


From 69a9564d7579c984f1be475d31d4e74ba4bcfd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:35 +0000
Subject: [PATCH 21/59] fix: do not use active set guesses left from other
 iterations

---
 core/include/humoto/task.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/core/include/humoto/task.h b/core/include/humoto/task.h
index 2ba3e0c..a4dc91e 100644
--- a/core/include/humoto/task.h
+++ b/core/include/humoto/task.h
@@ -45,6 +45,9 @@ namespace humoto
             {
                 is_modified_ = true;
 
+                // the guess made on the previous iteration is not valid anymore
+                active_set_guess_.reset();
+
                 setNumberOfVariables(number_of_variables);
             }
 
@@ -150,9 +153,10 @@ namespace humoto
             {
                 std::size_t num_ctr = getNumberOfConstraints();
 
-                if (is_modified_ || (0 == active_set_actual_.size()))
+                if (is_modified_ || (num_ctr != active_set_actual_.size()))
                 {
-                    // default initialization
+                    // default initialization: the task is modified or there is
+                    // no active set, which corresponds to it
                     if (isEquality())
                     {
                         active_set_guess_.initialize(num_ctr, ConstraintActivationType::EQUALITY);
@@ -165,11 +169,6 @@ namespace humoto
                 else
                 {
                     // reuse actual active set from the previous iteration
-                    HUMOTO_ASSERT( (num_ctr == active_set_actual_.size()),
-                                   std::string("The task is marked as unmodified, "
-                                               "but the size of the active set is not the same. Task: ")
-                                   + getDescription());
-
                     active_set_guess_ = active_set_actual_;
                 }
             }
-- 
2.43.0


From 0db7aaf32677caae07bfa023b045ba7b2f4a550e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:49 +0000
Subject: [PATCH 22/59] fix: report failure of kktsolver if the solution does
 not satisfy equations

---
 core/include/kktsolver.h | 46 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/core/include/kktsolver.h b/core/include/kktsolver.h
index b91320b..081944d 100644
--- a/core/include/kktsolver.h
+++ b/core/include/kktsolver.h
@@ -94,6 +94,39 @@ namespace humoto
 
 
             private:
+                /**
+                 * @brief Determine status: singular and inconsistent systems
+                 * of equations are 'solved' by decompositions too.
+                 *
+                 * @param[in] residual residual of the system
+                 * @param[in] right_side right hand side of the system
+                 *
+                 * @return status
+                 */
+                static SolverStatus::Status getStatus(  const Eigen::VectorXd & residual,
+                                                        const Eigen::VectorXd & right_side)
+                {
+                    const double tolerance = 1e-06;
+                    double scale = 1.0;
+
+                    for (EigenIndex i = 0; i < right_side.size(); ++i)
+                    {
+                        scale = std::max(scale, std::abs(right_side(i)));
+                    }
+
+                    for (EigenIndex i = 0; i < residual.size(); ++i)
+                    {
+                        // not equivalent to '>' if the residual is not a number
+                        if (!(std::abs(residual(i)) <= tolerance * scale))
+                        {
+                            return (SolverStatus::OTHER);
+                        }
+                    }
+
+                    return (SolverStatus::OK);
+                }
+
+
                 /// @copydoc humoto::Solver::initialize
                 void initialize(  const humoto::OptimizationProblem   &hierarchy,
                                   const humoto::SolutionStructure     &sol_structure)
@@ -158,7 +191,16 @@ namespace humoto
                                             -
                                             iH_g;
 
-                    solution.return_status_ = SolverStatus::OK;
+                    if (true == solution.x_.allFinite())
+                    {
+                        solution.return_status_ = getStatus(
+                                qp_problem_.getEqualities().getA()*solution.x_ - qp_problem_.getEqualities().getB(),
+                                qp_problem_.getEqualities().getB());
+                    }
+                    else
+                    {
+                        solution.return_status_ = SolverStatus::OTHER;
+                    }
                 }
 
 
@@ -200,7 +242,7 @@ namespace humoto
                             HUMOTO_THROW_MSG("Unknown solution method.");
                     }
 
-                    solution.return_status_ = SolverStatus::OK;
+                    solution.return_status_ = getStatus(kkt_matrix * x - kkt_vector, kkt_vector);
 
                     solution.x_ = x.segment(0, num_var);
                 }
-- 
2.43.0


From 3474d814176e4968b78d32980849614ab1434ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:19 +0000
Subject: [PATCH 23/59] fix: reject solution guesses of a wrong size instead of
 reading past their end

---
 bridges/qpOASES/interface/qpoases/solver.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bridges/qpOASES/interface/qpoases/solver.h b/bridges/qpOASES/interface/qpoases/solver.h
index 5639cea..73dcc82 100644
--- a/bridges/qpOASES/interface/qpoases/solver.h
+++ b/bridges/qpOASES/interface/qpoases/solver.h
@@ -468,6 +468,11 @@ namespace humoto
                 /// @copydoc humoto::SolverGuessSolutionMixin::setSolutionGuess
                 void setSolutionGuess(const humoto::Solution & solution_guess)
                 {
+                    // an empty guess is ignored
+                    HUMOTO_ASSERT(  (0 == solution_guess.x_.size())
+                                    || (solution_guess.x_.size() == qp_problem_.getGradient().size()),
+                                    "Wrong size of the solution guess.");
+
                     solution_guess_ = solution_guess.x_.data();
                 }
 
-- 
2.43.0


From 7702d9b649ac96816a38de87e4c2dc4a75c83212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:10 +0000
Subject: [PATCH 24/59] fix: update model when a transitional double support
 lasts several iterations

---
 modules/wpg04/include/wpg04/model.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/wpg04/include/wpg04/model.h b/modules/wpg04/include/wpg04/model.h
index 390ca83..42cce9f 100644
--- a/modules/wpg04/include/wpg04/model.h
+++ b/modules/wpg04/include/wpg04/model.h
@@ -192,6 +192,10 @@ namespace humoto
                                     // no need to update positions of the feet (they must not change)
                                     break;
 
+                                case humoto::walking::StanceType::TDS:
+                                    // the stance continues, the feet do not move
+                                    break;
+
                                 default:
                                     HUMOTO_THROW_MSG("Unknown stance type.");
                                     break;
-- 
2.43.0


From 516bc7534288df2b0c5daa9cd05bc7e54710dd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:10 +0000
Subject: [PATCH 25/59] fix: guesses of footsteps when several steps disappear
 from the preview

---
 modules/wpg04/include/wpg04/mpc_wpg.h             | 6 +++---
 modules/wpg04/include/wpg04/task_footstepbounds.h | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/wpg04/include/wpg04/mpc_wpg.h b/modules/wpg04/include/wpg04/mpc_wpg.h
index 1712b2f..7dda762 100644
--- a/modules/wpg04/include/wpg04/mpc_wpg.h
+++ b/modules/wpg04/include/wpg04/mpc_wpg.h
@@ -530,13 +530,13 @@ namespace humoto
                         {
                             if (old_part.length_ > guess_part.length_)
                             {
-                                old_part.offset_ +=2;
-                                old_part.length_ -=2;
+                                old_part.offset_ += old_part.length_ - guess_part.length_;
+                                old_part.length_ = guess_part.length_;
                                 solution_guess.getData(guess_part) = old_solution.getData(old_part);
                             }
                             else
                             {
-                                guess_part.length_ -= 2;
+                                guess_part.length_ = old_part.length_;
                                 solution_guess.getData(guess_part) = old_solution.getData(old_part);
                             }
                         }
diff --git a/modules/wpg04/include/wpg04/task_footstepbounds.h b/modules/wpg04/include/wpg04/task_footstepbounds.h
index 555dbf2..b057e60 100644
--- a/modules/wpg04/include/wpg04/task_footstepbounds.h
+++ b/modules/wpg04/include/wpg04/task_footstepbounds.h
@@ -120,7 +120,7 @@ namespace humoto
                             {
                                 if (size_of_the_old_active_set > loc_var.length_)
                                 {
-                                    Location loc_act_set(2, size_of_the_old_active_set - 2);
+                                    Location loc_act_set(size_of_the_old_active_set - loc_var.length_, loc_var.length_);
 
                                     getActiveSetGuess().initialize(getActualActiveSet(), loc_act_set);
                                 }
-- 
2.43.0


From 8b086fbd9e5d0b7a8d3796fc9633b21684c1c314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:25 +0000
Subject: [PATCH 26/59] fix: allow to shift an active set by its whole size
 (horizon of one interval)

---
 core/include/humoto/active_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/humoto/active_set.h b/core/include/humoto/active_set.h
index d490f07..3a47ba9 100644
--- a/core/include/humoto/active_set.h
+++ b/core/include/humoto/active_set.h
@@ -217,7 +217,7 @@ namespace humoto
             void shift( const std::size_t shift_size,
                         const ConstraintActivationType::Type type)
             {
-                HUMOTO_ASSERT(  shift_size < size(),
+                HUMOTO_ASSERT(  shift_size <= size(),
                                 "Shift size exceeded size of the active set.");
 
                 std::rotate(data_.begin(),
-- 
2.43.0


From 0fedfae0673502a8992637f19caf2339f241210b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:12 +0000
Subject: [PATCH 27/59] fix: place the first output block of a condensed system
 with several controls

---
 core/include/humoto/control_problem.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/include/humoto/control_problem.h b/core/include/humoto/control_problem.h
index c4da964..dec95fa 100644
--- a/core/include/humoto/control_problem.h
+++ b/core/include/humoto/control_problem.h
@@ -167,10 +167,10 @@ namespace humoto
 
                 for (std::size_t i = 0; i < Uu.size(); ++i)
                 {
-                    Ou[i](N-1, N-1) = E[0].block( 0,
-                                                  control_offsets[i],
-                                                  t_num_outputs,
-                                                  Uu[i].getBlockColsNum());
+                    Ou[i](0, 0) = E[0].block( 0,
+                                              control_offsets[i],
+                                              t_num_outputs,
+                                              Uu[i].getBlockColsNum());
                 }
 
                 for (std::ptrdiff_t i = 1; i < N; ++i)
-- 
2.43.0


From 16a74d4f1263335a7aab414a9e3e22900aab2286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:12 +0000
Subject: [PATCH 28/59] fix: use controls of the requested interval when
 evaluating the state of pepper

---
 modules/pepper_mpc/include/pepper_mpc/mpc_mg.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
index 2fd0c85..d463d19 100644
--- a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
+++ b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
@@ -318,8 +318,8 @@ namespace humoto
                                         preview_horizon_.intervals_[interval_index].T_,
                                         interval_offset,
                                         preceding_cstate,
-                                        base_controls_.head(2),
-                                        body_controls_.head(2),
+                                        base_control,
+                                        body_control,
                                         base_height,
                                         body_height,
                                         theta);
-- 
2.43.0


From 640fea649816e4fd996bc269a12e83f8444d376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:12 +0000
Subject: [PATCH 29/59] fix: preserve masses of pepper in the next model state

---
 modules/pepper_mpc/include/pepper_mpc/model.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/pepper_mpc/include/pepper_mpc/model.h b/modules/pepper_mpc/include/pepper_mpc/model.h
index e14393c..c131f71 100644
--- a/modules/pepper_mpc/include/pepper_mpc/model.h
+++ b/modules/pepper_mpc/include/pepper_mpc/model.h
@@ -264,6 +264,9 @@ namespace humoto
                     model_state.body_state_ = convertBodyStateMPCtoRB(mpc_state, body_height);
 
                     model_state.base_state_.rpy_.z() = theta;
+
+                    model_state.base_mass_ = state_.base_mass_;
+                    model_state.body_mass_ = state_.body_mass_;
                 }
 
 
-- 
2.43.0


From db55a6e679ac29f5a49d31bc48ed9da6c112ab03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:12 +0000
Subject: [PATCH 30/59] fix: do not swap base and body heights of pepper

---
 modules/pepper_mpc/include/pepper_mpc/model_state.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/pepper_mpc/include/pepper_mpc/model_state.h b/modules/pepper_mpc/include/pepper_mpc/model_state.h
index 6fbd542..59370c7 100644
--- a/modules/pepper_mpc/include/pepper_mpc/model_state.h
+++ b/modules/pepper_mpc/include/pepper_mpc/model_state.h
@@ -99,7 +99,7 @@ namespace humoto
                             const double body_height,
                             const double body_x_offset)
                 {
-                    setParameters(body_height, base_height, body_x_offset);
+                    setParameters(base_height, body_height, body_x_offset);
                 }
 
 
-- 
2.43.0


From 7fa62ed12037dd643dad186783b4305411d07d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:12 +0000
Subject: [PATCH 31/59] fix: sign of the body position reference

---
 modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h b/modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h
index 69ed918..6d86b62 100644
--- a/modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h
+++ b/modules/pepper_mpc/include/pepper_mpc/task_bodypositionref.h
@@ -34,7 +34,7 @@ namespace humoto
                     Eigen::VectorXd     &b    = getB();
 
                     A.noalias() = getGain()*mpc.Apd_;
-                    b.noalias() = getGain()*mpc.spd_;
+                    b.noalias() = -getGain()*mpc.spd_;
                 }
         };
     }//pepper
-- 
2.43.0


From 293aa21fb347008c0f21d79fae22e88d7e693f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:12 +0000
Subject: [PATCH 32/59] fix: apply limits on the body of pepper to its position
 relative to the base

---
 modules/pepper_mpc/include/pepper_mpc/mpc_mg.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
index d463d19..ddbdd28 100644
--- a/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
+++ b/modules/pepper_mpc/include/pepper_mpc/mpc_mg.h
@@ -241,13 +241,14 @@ namespace humoto
                     Apd_ <<  R_ * etools::LeftLowerTriangularBlockKroneckerProduct<1,1>(Uus.selectRowInBlocksAsMatrix(0), 2),
                              - (R_ * etools::LeftLowerTriangularBlockKroneckerProduct<1,1>(Uud.selectRowInBlocksAsMatrix(0), 2));
                     */
+                    // body position with respect to the base
                     spd_.noalias() =
-                        R_ * (  Uxs.selectRowInBlocks(0).getBlockKroneckerProduct(2) * mpc_base_state
+                        R_ * (  Uxd.selectRowInBlocks(0).getBlockKroneckerProduct(2) * mpc_body_state
                                 -
-                                Uxd.selectRowInBlocks(0).getBlockKroneckerProduct(2) * mpc_body_state);
+                                Uxs.selectRowInBlocks(0).getBlockKroneckerProduct(2) * mpc_base_state);
                     Apd_.resize(2*mpc_parameters_.preview_horizon_length_, sol_structure_.getNumberOfVariables ());
-                    Apd_ <<  R_ * Uus.selectRowInBlocks(0).getBlockKroneckerProduct(2),
-                             - (R_ * Uud.selectRowInBlocks(0).getBlockKroneckerProduct(2));
+                    Apd_ <<  - (R_ * Uus.selectRowInBlocks(0).getBlockKroneckerProduct(2)),
+                             R_ * Uud.selectRowInBlocks(0).getBlockKroneckerProduct(2);
 
                     // -----
 
-- 
2.43.0


From 5adad05c1c8d1a08f38206df86ce32336513bce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:51 +0000
Subject: [PATCH 33/59] fix: do not turn the foot which has already landed

---
 modules/wpg04/include/wpg04/preview_horizon.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/modules/wpg04/include/wpg04/preview_horizon.h b/modules/wpg04/include/wpg04/preview_horizon.h
index 5a4b0b2..c9d7ba4 100644
--- a/modules/wpg04/include/wpg04/preview_horizon.h
+++ b/modules/wpg04/include/wpg04/preview_horizon.h
@@ -286,13 +286,19 @@ namespace humoto
                         if((stances.at(i + 1).type_ == humoto::walking::StanceType::RSS) &&
                            (state.previous_nontds_stance_type_ != humoto::walking::StanceType::DS))
                         {
-                            rss_theta = lss_theta + walk_parameters.theta_increment_;
+                            if (i > 0) // the foot has already landed otherwise
+                            {
+                                rss_theta = lss_theta + walk_parameters.theta_increment_;
+                            }
                             state.theta_ = rss_theta;
                         }
                         if((stances.at(i + 1).type_ == humoto::walking::StanceType::LSS) &&
                            (state.previous_nontds_stance_type_ != humoto::walking::StanceType::DS))
                         {
-                            lss_theta = rss_theta + walk_parameters.theta_increment_;
+                            if (i > 0) // the foot has already landed otherwise
+                            {
+                                lss_theta = rss_theta + walk_parameters.theta_increment_;
+                            }
                             state.theta_ = lss_theta;
                         }
                         if((stances.at(i + 1).type_ == humoto::walking::StanceType::DS) &&
-- 
2.43.0


From 053515163bc856a53baab90e6854ea9c5a54fec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:16 +0000
Subject: [PATCH 34/59] fix: drop previewed states beyond the horizon

---
 modules/wpg04/include/wpg04/preview_horizon.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/wpg04/include/wpg04/preview_horizon.h b/modules/wpg04/include/wpg04/preview_horizon.h
index c9d7ba4..f3c689b 100644
--- a/modules/wpg04/include/wpg04/preview_horizon.h
+++ b/modules/wpg04/include/wpg04/preview_horizon.h
@@ -464,6 +464,9 @@ namespace humoto
                 ++walk_index;
             }
 
+            // previewed states which do not correspond to any of the intervals
+            walk_states_.resize(walk_index);
+
             return (preview_horizon_formed);
         }
 
-- 
2.43.0


From 821e01772c411647efbbae8d18a30098730a3c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:46 +0000
Subject: [PATCH 35/59] fix: meet velocities at the ends of cubic polynomials

---
 core/include/rigid_body/cubic_polynomial.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/rigid_body/cubic_polynomial.h b/core/include/rigid_body/cubic_polynomial.h
index 8c76869..971fc8d 100644
--- a/core/include/rigid_body/cubic_polynomial.h
+++ b/core/include/rigid_body/cubic_polynomial.h
@@ -82,8 +82,8 @@ namespace humoto
                 {
                     a0_ = a;
                     a1_ = adot;
-                    a2_ =  3.0*(b - a) - 2.0*(adot - bdot);
-                    a3_ = -2.0*(b - a) + 1.0*(bdot - adot);
+                    a2_ =  3.0*(b - a) - 2.0*adot - bdot;
+                    a3_ = -2.0*(b - a) + adot + bdot;
                 }
 
 
-- 
2.43.0


From b9acfb2db3a0916396b9db6f3e8abb2a17cdde54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:46 +0000
Subject: [PATCH 36/59] fix: vertical rates of foot trajectories with respect
 to the same time as the others

---
 core/include/walking/foot_trajectory.h | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/core/include/walking/foot_trajectory.h b/core/include/walking/foot_trajectory.h
index 3ba7b77..279fb38 100644
--- a/core/include/walking/foot_trajectory.h
+++ b/core/include/walking/foot_trajectory.h
@@ -66,8 +66,8 @@ namespace humoto
                     HUMOTO_ASSERT(b(2) <= (a(2) + step_height), "final z position greater than step height.")
                     x_.initialize( a(0),               adot(0), b(0),               bdot(0));
                     y_.initialize( a(1),               adot(1), b(1),               bdot(1));
-                    z1_.initialize(a(2),               adot(2), a(2) + step_height, 0.0);
-                    z2_.initialize(step_height + a(2), 0.0,     b(2),               bdot(2));
+                    z1_.initialize(a(2),               adot(2)/2., a(2) + step_height, 0.0);
+                    z2_.initialize(step_height + a(2), 0.0,        b(2),               bdot(2)/2.);
                 }
 
 
@@ -92,8 +92,8 @@ namespace humoto
                                        b.rpy_(humoto::AngleIndex::YAW),
                                        b.angular_velocity_(humoto::AngleIndex::YAW));
                     
-                    z1_.initialize(a.position_(2),               a.velocity_(2), a.position_(2) + step_height, 0.0);
-                    z2_.initialize(step_height + a.position_(2), 0.0,            b.position_(2),               b.velocity_(2));
+                    z1_.initialize(a.position_(2),               a.velocity_(2)/2., a.position_(2) + step_height, 0.0);
+                    z2_.initialize(step_height + a.position_(2), 0.0,               b.position_(2),               b.velocity_(2)/2.);
                 }
 
 
@@ -127,13 +127,27 @@ namespace humoto
                 double evalz(   const double t,
                                 const rigidbody::TrajectoryEvaluationType::Type trajectory_type) const
                 {
+                    // each of the halves takes only half of the time
+                    double scale = 1.0;
+                    switch(trajectory_type)
+                    {
+                        case rigidbody::TrajectoryEvaluationType::VELOCITY:
+                            scale = 2.0;
+                            break;
+                        case rigidbody::TrajectoryEvaluationType::ACCELERATION:
+                            scale = 4.0;
+                            break;
+                        default:
+                            break;
+                    }
+
                     if (t <= 0.5)
                     {
-                        return (z1_.eval(t*2, trajectory_type));
+                        return (scale * z1_.eval(t*2, trajectory_type));
                     }
                     else
                     {
-                        return (z2_.eval((t-0.5)*2, trajectory_type));
+                        return (scale * z2_.eval((t-0.5)*2, trajectory_type));
                     }
                 }
                 
-- 
2.43.0


From 48253275ce8bd4a5d6936f4af05ef892739a6872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:34 +0000
Subject: [PATCH 37/59] fix: blocks of mapped matrices refer to the mapped
 data, not to a destroyed copy of it

---
 core/include/eigentools/blockmatrix_base.h | 35 +++++++++++++++++++---
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/core/include/eigentools/blockmatrix_base.h b/core/include/eigentools/blockmatrix_base.h
index 9ef7792..4753c3a 100644
--- a/core/include/eigentools/blockmatrix_base.h
+++ b/core/include/eigentools/blockmatrix_base.h
@@ -65,6 +65,29 @@ namespace etools
 
 
 
+    /**
+     * @brief Type of the matrix whose blocks are accessed: drops the base class
+     * of Eigen matrices.
+     *
+     * @tparam T input type
+     */
+    template<class T>   struct TypeDerivedMatrix
+    {
+        typedef T Type;
+    };
+
+    /**
+     * @brief Type of the matrix whose blocks are accessed: drops the base class
+     * of Eigen matrices.
+     *
+     * @tparam T input type
+     */
+    template<class T>   struct TypeDerivedMatrix< Eigen::PlainObjectBase<T> >
+    {
+        typedef T Type;
+    };
+
+
     /**
      * @brief Matrix block size type
      */
@@ -113,11 +136,14 @@ namespace etools
             /// Scalar type of raw matrix (from Eigen)
             typedef typename DecayedRawMatrix::Scalar           Scalar;
 
+            /// Type of the matrix whose blocks are accessed, blocks must not refer to a converted copy of it.
+            typedef typename TypeDerivedMatrix<DecayedRawMatrix>::Type  DerivedRawMatrix;
+
             /// Shorthand for Eigen block
-            typedef Eigen::Block< EIGENTOOLS_DYNAMIC_MATRIX( Scalar ) > DynamicMatrixBlock;
+            typedef Eigen::Block< DerivedRawMatrix > DynamicMatrixBlock;
 
             /// Shorthand for Eigen block
-            typedef const Eigen::Block< const EIGENTOOLS_DYNAMIC_MATRIX( Scalar ) > ConstDynamicMatrixBlock;
+            typedef const Eigen::Block< const DerivedRawMatrix > ConstDynamicMatrixBlock;
 
 
         public:
@@ -546,16 +572,17 @@ namespace etools
     {
         public:
             typedef typename EIGENTOOLS_PARENT_CLASS_SHORTHAND::DecayedRawMatrix DecayedRawMatrix;
+            typedef typename EIGENTOOLS_PARENT_CLASS_SHORTHAND::DerivedRawMatrix DerivedRawMatrix;
             typedef typename EIGENTOOLS_PARENT_CLASS_SHORTHAND::Scalar           Scalar;
 
 
             /// Shorthand for Eigen block
-            typedef Eigen::Block<   EIGENTOOLS_DYNAMIC_MATRIX( Scalar ),
+            typedef Eigen::Block<   DerivedRawMatrix,
                                     t_block_rows_num,
                                     t_block_cols_num> StaticMatrixBlock;
 
             /// Shorthand for Eigen block
-            typedef const Eigen::Block< const EIGENTOOLS_DYNAMIC_MATRIX( Scalar ),
+            typedef const Eigen::Block< const DerivedRawMatrix,
                                         t_block_rows_num,
                                         t_block_cols_num> ConstStaticMatrixBlock;
 
-- 
2.43.0


From 9947bc12c79d511243ca765fb8463efce626a01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:34 +0000
Subject: [PATCH 38/59] fix: selected rows keep the number of columns in a
 block

---
 core/include/eigentools/blockmatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/eigentools/blockmatrix.h b/core/include/eigentools/blockmatrix.h
index 4a7733d..19525e0 100644
--- a/core/include/eigentools/blockmatrix.h
+++ b/core/include/eigentools/blockmatrix.h
@@ -203,7 +203,7 @@ namespace etools
                                                         EIGENTOOLS_BLOCKMATRIX_BLOCK_ROWS_NUM,
                                                         row_in_a_block),
                                      MatrixBlockSizeType::UNDEFINED,
-                                     ((t_block_rows_num > 0) ? MatrixBlockSizeType::UNDEFINED : block_rows_num_)));
+                                     ((t_block_cols_num > 0) ? MatrixBlockSizeType::UNDEFINED : block_cols_num_)));
             }
 
 
-- 
2.43.0


From 7448c7da283ec631d72e8596c76cd50af182e0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:55 +0000
Subject: [PATCH 39/59] fix: products with block Kronecker products do not
 depend on the previous size of the result

---
 core/include/eigentools/blockmatrix_kronecker.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/include/eigentools/blockmatrix_kronecker.h b/core/include/eigentools/blockmatrix_kronecker.h
index 08cf696..4084faf 100644
--- a/core/include/eigentools/blockmatrix_kronecker.h
+++ b/core/include/eigentools/blockmatrix_kronecker.h
@@ -613,6 +613,8 @@ namespace etools
                                     "Sizes of matrices do not match.");
 
 
+                result.resize(identity_size_ * matrix_.rows(), dbm.getNumberOfColumns());
+
                 BlockMatrixBase<Eigen::PlainObjectBase<t_Derived> &,
                                 t_dbm_block_rows_num,
                                 t_dbm_block_cols_num,
@@ -831,6 +833,8 @@ namespace etools
 
 
 
+                result.resize(identity_size_ * matrix_.rows(), dbm.getNumberOfColumns());
+
                 BlockMatrixBase<Eigen::PlainObjectBase<t_Derived>   &,
                                 t_dbm_block_rows_num,
                                 t_dbm_block_cols_num,
@@ -882,6 +886,8 @@ namespace etools
                                     "Sizes of matrices do not match.");
 
 
+                result.resize(identity_size_ * matrix_.rows(), dbm.getNumberOfColumns());
+
                 BlockMatrixBase<    Eigen::PlainObjectBase<t_Derived> &,
                                     t_dbm_block_rows_num,
                                     t_dbm_block_cols_num,
-- 
2.43.0


From 3b725accbb2fc4239e420fab043e3f28a6d57d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:55 +0000
Subject: [PATCH 40/59] fix: skip all empty matrices in vertical concatenation

---
 core/include/eigentools/eigentools.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/include/eigentools/eigentools.h b/core/include/eigentools/eigentools.h
index 8a4cc53..574ef82 100644
--- a/core/include/eigentools/eigentools.h
+++ b/core/include/eigentools/eigentools.h
@@ -480,13 +480,17 @@ namespace etools
             std::ptrdiff_t total_number_of_rows = 0;
             std::ptrdiff_t number_of_cols = 0;
 
-            for(std::size_t i = 0; i < number_of_matrices; ++i)
+            for(std::size_t i = 0; i < number_of_matrices; )
             {
                 if(!nonempty_matrices[i].size())
                 {
                     nonempty_matrices.erase(nonempty_matrices.begin() + i);
                     --number_of_matrices;
                 }
+                else
+                {
+                    ++i;
+                }
             }
 
             if(!number_of_matrices)
-- 
2.43.0


From 0407581b83d14f9b4b1588d7ebd92713ff7c2fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:29 +0000
Subject: [PATCH 41/59] fix: index of a removed column is limited by the number
 of columns

---
 core/include/eigentools/eigentools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/eigentools/eigentools.h b/core/include/eigentools/eigentools.h
index 574ef82..4ed05c4 100644
--- a/core/include/eigentools/eigentools.h
+++ b/core/include/eigentools/eigentools.h
@@ -673,7 +673,7 @@ namespace etools
             removeColumn(   Eigen::PlainObjectBase<t_Derived> & matrix,
                             const std::ptrdiff_t column_to_remove)
     {
-        EIGENTOOLS_ASSERT(column_to_remove <= matrix.rows(), "The index of a removed column is greater than the size of the matrix.");
+        EIGENTOOLS_ASSERT(column_to_remove < matrix.cols(), "The index of a removed column is greater than the size of the matrix.");
 
         std::ptrdiff_t number_of_rows = matrix.rows();
         std::ptrdiff_t number_of_cols = matrix.cols()-1;
-- 
2.43.0


From 8edaced847de3fae76cbedf312be6dbb729a7744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:11 +0000
Subject: [PATCH 42/59] fix: index of a removed row is limited by the number of
 rows

---
 core/include/eigentools/eigentools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/eigentools/eigentools.h b/core/include/eigentools/eigentools.h
index 4ed05c4..800905a 100644
--- a/core/include/eigentools/eigentools.h
+++ b/core/include/eigentools/eigentools.h
@@ -641,7 +641,7 @@ namespace etools
             removeRow(  Eigen::PlainObjectBase<t_Derived> & matrix,
                         const std::ptrdiff_t row_to_remove)
     {
-        EIGENTOOLS_ASSERT(row_to_remove <= matrix.rows(), "The index of a removed row is greater than the size of the matrix.");
+        EIGENTOOLS_ASSERT(row_to_remove < matrix.rows(), "The index of a removed row is greater than the size of the matrix.");
 
         std::ptrdiff_t number_of_rows = matrix.rows()-1;
         std::ptrdiff_t number_of_cols = matrix.cols();
-- 
2.43.0


From ac2a1eb9605bd2c96c434b8d4aa0da0d3823c14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:11 +0000
Subject: [PATCH 43/59] fix: size of Matrix1x2

---
 core/include/eigentools/eigentools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/eigentools/eigentools.h b/core/include/eigentools/eigentools.h
index 800905a..aaeb801 100644
--- a/core/include/eigentools/eigentools.h
+++ b/core/include/eigentools/eigentools.h
@@ -83,7 +83,7 @@ namespace etools
     typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(9, 9)  Matrix9;
     typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(10, 10)  Matrix10;
 
-    typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(1, 1)  Matrix1x2;
+    typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(1, 2)  Matrix1x2;
     typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(1, 3)  Matrix1x3;
     typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(1, 4)  Matrix1x4;
     typedef EIGENTOOLS_CONSTANT_SIZE_MATRIX(1, 5)  Matrix1x5;
-- 
2.43.0


From 78adf10c58832efbb17bc4eeb901be632e1dec25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:02 +0000
Subject: [PATCH 44/59] fix: block Kronecker products by diagonal matrices with
 dynamic sizes of blocks

---
 core/include/eigentools/blockmatrix_kronecker.h | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/core/include/eigentools/blockmatrix_kronecker.h b/core/include/eigentools/blockmatrix_kronecker.h
index 4084faf..a0a8236 100644
--- a/core/include/eigentools/blockmatrix_kronecker.h
+++ b/core/include/eigentools/blockmatrix_kronecker.h
@@ -618,7 +618,10 @@ namespace etools
                 BlockMatrixBase<Eigen::PlainObjectBase<t_Derived> &,
                                 t_dbm_block_rows_num,
                                 t_dbm_block_cols_num,
-                                MatrixSparsityType::NONE >   result_bmi(result);
+                                MatrixSparsityType::NONE >
+                    result_bmi( result,
+                                (t_dbm_block_rows_num > 0) ? MatrixBlockSizeType::UNDEFINED : dbm.getBlockRowsNum(),
+                                (t_dbm_block_cols_num > 0) ? MatrixBlockSizeType::UNDEFINED : dbm.getBlockColsNum());
 
                 result_bmi.resize(num_blocks_vert_, dbm.getNumberOfBlocksHorizontal());
 
@@ -838,7 +841,10 @@ namespace etools
                 BlockMatrixBase<Eigen::PlainObjectBase<t_Derived>   &,
                                 t_dbm_block_rows_num,
                                 t_dbm_block_cols_num,
-                                MatrixSparsityType::NONE >   result_bmi(result);
+                                MatrixSparsityType::NONE >
+                    result_bmi( result,
+                                (t_dbm_block_rows_num > 0) ? MatrixBlockSizeType::UNDEFINED : dbm.getBlockRowsNum(),
+                                (t_dbm_block_cols_num > 0) ? MatrixBlockSizeType::UNDEFINED : dbm.getBlockColsNum());
 
                 result_bmi.setZero(num_blocks_vert_, dbm.getNumberOfBlocksHorizontal());
 
@@ -891,7 +897,10 @@ namespace etools
                 BlockMatrixBase<    Eigen::PlainObjectBase<t_Derived> &,
                                     t_dbm_block_rows_num,
                                     t_dbm_block_cols_num,
-                                    MatrixSparsityType::NONE >   result_bmi(result);
+                                    MatrixSparsityType::NONE >
+                    result_bmi( result,
+                                (t_dbm_block_rows_num > 0) ? MatrixBlockSizeType::UNDEFINED : dbm.getBlockRowsNum(),
+                                (t_dbm_block_cols_num > 0) ? MatrixBlockSizeType::UNDEFINED : dbm.getBlockColsNum());
 
                 result_bmi.setZero(num_blocks_vert_, dbm.getNumberOfBlocksHorizontal());
 
-- 
2.43.0


From 2bfe577e3cc1b62e761907313008c621eace8bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:02 +0000
Subject: [PATCH 45/59] fix: report failures to write a YAML configuration file

---
 bridges/config_yaml/interface/config_yaml/writer.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bridges/config_yaml/interface/config_yaml/writer.h b/bridges/config_yaml/interface/config_yaml/writer.h
index 95a7d99..054c591 100644
--- a/bridges/config_yaml/interface/config_yaml/writer.h
+++ b/bridges/config_yaml/interface/config_yaml/writer.h
@@ -65,6 +65,11 @@ namespace humoto
                     explicit Writer(const std::string& file_name) :
                         config_ofs_(file_name.c_str())
                     {
+                        if (!config_ofs_.good())
+                        {
+                            HUMOTO_THROW_MSG(std::string("Could not open configuration file for writing: ") +  file_name.c_str());
+                        }
+
                         initEmitter();
                     }
 
@@ -272,6 +277,13 @@ namespace humoto
                     {
                         destroyEmitter();
                         initEmitter();
+
+                        config_ofs_.flush();
+
+                        if (!config_ofs_.good())
+                        {
+                            HUMOTO_THROW_MSG("Could not write configuration file.");
+                        }
                     }
             };
         }
-- 
2.43.0


From 433cedb8573bd94b653c3e2acf954193a5cf8f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:10 +0000
Subject: [PATCH 46/59] fix: write matrices to YAML in the order expected by
 the reader

---
 bridges/config_yaml/interface/config_yaml/writer.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bridges/config_yaml/interface/config_yaml/writer.h b/bridges/config_yaml/interface/config_yaml/writer.h
index 054c591..f3ae57c 100644
--- a/bridges/config_yaml/interface/config_yaml/writer.h
+++ b/bridges/config_yaml/interface/config_yaml/writer.h
@@ -171,11 +171,12 @@ namespace humoto
                         *emitter_ << YAML::Value << YAML::Flow;
                         *emitter_ << YAML::BeginSeq;
 
-                        for(humoto::EigenIndex i = 0; i < entry.cols(); ++i)
+                        // the reader expects elements to be stored row by row
+                        for(humoto::EigenIndex i = 0; i < entry.rows(); ++i)
                         {
-                            for(humoto::EigenIndex j = 0; j < entry.rows(); ++j)
+                            for(humoto::EigenIndex j = 0; j < entry.cols(); ++j)
                             {
-                                *emitter_ << entry(j, i);
+                                *emitter_ << entry(i, j);
                             }
                         }
 
-- 
2.43.0


From 446098f60dd51ac0f7a63ce552c205eccf3836ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:32 +0000
Subject: [PATCH 47/59] fix: leave nodes of YAML configuration when reading
 fails

---
 .../interface/config_yaml/reader.h            | 33 ++++++++++++++-----
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/bridges/config_yaml/interface/config_yaml/reader.h b/bridges/config_yaml/interface/config_yaml/reader.h
index ef54f35..ac16bed 100644
--- a/bridges/config_yaml/interface/config_yaml/reader.h
+++ b/bridges/config_yaml/interface/config_yaml/reader.h
@@ -60,6 +60,21 @@ namespace humoto
                     }
 
 
+                    /**
+                     * @brief Returns to the parent node on leaving of a scope,
+                     * including the cases when an exception is thrown.
+                     */
+                    class NodeScope
+                    {
+                        private:
+                            Reader  & reader_;
+
+                        public:
+                            explicit NodeScope(Reader & reader) : reader_(reader) {}
+                            ~NodeScope() { reader_.ascend(); }
+                    };
+
+
                     /**
                      * @brief Get current node
                      *
@@ -144,6 +159,8 @@ namespace humoto
                     {
                         if (descend(entry_name))
                         {
+                            NodeScope scope(*this);
+
                             HUMOTO_ASSERT(  (getCurrentNode()->Type() == YAML::NodeType::Sequence),
                                             "[Config] Entry is not a sequence.");
 
@@ -161,8 +178,6 @@ namespace humoto
                             {
                                 (*getCurrentNode())[i] >> entry(i);
                             }
-
-                            ascend();
                         }
                         else
                         {
@@ -197,6 +212,8 @@ namespace humoto
                     {
                         if (descend(entry_name))
                         {
+                            NodeScope scope(*this);
+
                             humoto::EigenIndex num_rows;
                             humoto::EigenIndex num_cols;
 
@@ -217,8 +234,6 @@ namespace humoto
                                                                                 num_rows,
                                                                                 num_cols);
                             entry = map;
-
-                            ascend();
                         }
                         else
                         {
@@ -246,6 +261,8 @@ namespace humoto
                     {
                         if (descend(entry_name))
                         {
+                            NodeScope scope(*this);
+
                             HUMOTO_ASSERT(  (getCurrentNode()->Type() == YAML::NodeType::Sequence),
                                             "[Config] Entry is not a sequence.");
 
@@ -255,8 +272,6 @@ namespace humoto
                             {
                                 (*getCurrentNode())[i] >> entry[i];
                             }
-
-                            ascend();
                         }
                         else
                         {
@@ -285,8 +300,9 @@ namespace humoto
                     {
                         if (descend(entry_name))
                         {
+                            NodeScope scope(*this);
+
                             *getCurrentNode() >> entry;
-                            ascend();
                         }
                         else
                         {
@@ -315,11 +331,12 @@ namespace humoto
                     {
                         if (descend(entry_name))
                         {
+                            NodeScope scope(*this);
+
                             int tmp_value = 0;
                             *getCurrentNode() >> tmp_value;
 
                             entry = static_cast<t_EnumerationType> (tmp_value);
-                            ascend();
                         }
                         else
                         {
-- 
2.43.0


From a4d7c461d5693ee6c066000829e1db73e8a0f8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:09 +0000
Subject: [PATCH 48/59] fix: check dimensions of matrices read from YAML files

---
 bridges/config_yaml/interface/config_yaml/reader.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bridges/config_yaml/interface/config_yaml/reader.h b/bridges/config_yaml/interface/config_yaml/reader.h
index ac16bed..d53f6ba 100644
--- a/bridges/config_yaml/interface/config_yaml/reader.h
+++ b/bridges/config_yaml/interface/config_yaml/reader.h
@@ -224,8 +224,13 @@ namespace humoto
                             Eigen::VectorXd v;
                             readCompound(v, "data", true);
 
-                            HUMOTO_ASSERT(  v.rows() == num_rows*num_cols,
+                            HUMOTO_ASSERT(  (num_rows >= 0) && (num_cols >= 0)
+                                                && ((0 == num_rows) || (num_cols <= v.rows() / num_rows))
+                                                && (v.rows() == num_rows*num_cols),
                                             std::string("Inconsistent configuration file entry: ") + entry_name);
+                            HUMOTO_ASSERT(  ((Eigen::Dynamic == t_rows) || (t_rows == num_rows))
+                                                && ((Eigen::Dynamic == t_cols) || (t_cols == num_cols)),
+                                            std::string("Wrong size of configuration file entry: ") + entry_name);
 
                             Eigen::Map< Eigen::Matrix<  double,
                                                         Eigen::Dynamic,
-- 
2.43.0


From 5bb25ad999f0e57859c6fcc9754138c7381c7dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:05 +0000
Subject: [PATCH 49/59] fix: start from an empty RBDL model when a model is
 loaded again

---
 bridges/rbdl/interface/rbdl/model.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bridges/rbdl/interface/rbdl/model.h b/bridges/rbdl/interface/rbdl/model.h
index 3854928..8435068 100644
--- a/bridges/rbdl/interface/rbdl/model.h
+++ b/bridges/rbdl/interface/rbdl/model.h
@@ -99,6 +99,7 @@ namespace humoto
                 void load(const std::string & urdf_filename)
                 {
                     setDefaults();
+                    rbdl_model_ = RigidBodyDynamics::Model();
 
                     bool rbdl_status = RigidBodyDynamics::Addons::URDFReadFromFile(
                                             urdf_filename.c_str(),
-- 
2.43.0


From 319feae8cc4efbf12a591283539d6f0ecf0efd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:05 +0000
Subject: [PATCH 50/59] fix: report unknown links instead of reading out of
 range

---
 bridges/rbdl/interface/rbdl/model.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/bridges/rbdl/interface/rbdl/model.h b/bridges/rbdl/interface/rbdl/model.h
index 8435068..07ee32b 100644
--- a/bridges/rbdl/interface/rbdl/model.h
+++ b/bridges/rbdl/interface/rbdl/model.h
@@ -190,6 +190,7 @@ namespace humoto
                 TagPointPtr getLinkCoMTag(const std::string &link_string_id) const
                 {
                     LinkId id = getLinkId(link_string_id);
+                    HUMOTO_ASSERT(isLinkFixed(id) == false, "Inertia of a fixed link is included in its parent.");
                     boost::shared_ptr<TagPoint> ptr(new TagPoint(   id,
                                                                     rbdl_model_.mBodies[id].mCenterOfMass));
                     return(ptr);
@@ -213,6 +214,7 @@ namespace humoto
                     for (std::size_t i = 0; i < link_ids.size(); ++i)
                     {
                         link_ids[i] = getLinkId(link_string_ids[i]);
+                        HUMOTO_ASSERT(isLinkFixed(link_ids[i]) == false, "Inertia of a fixed link is included in its parent.");
 
                         total_mass += rbdl_model_.mBodies[link_ids[i]].mMass;
                     }
@@ -427,6 +429,7 @@ namespace humoto
                  */
                 double getTagMass(const TagLinkPtr  tag) const
                 {
+                    HUMOTO_ASSERT(isLinkFixed(tag->link_id_) == false, "Inertia of a fixed link is included in its parent.");
                     return (rbdl_model_.mBodies[tag->link_id_].mMass);
                 }
 
@@ -742,7 +745,14 @@ namespace humoto
                  */
                 std::size_t getLinkId(const std::string   &string_id) const
                 {
-                    return (rbdl_model_.GetBodyId(string_id.c_str()));
+                    std::size_t link_id = rbdl_model_.GetBodyId(string_id.c_str());
+
+                    if (std::numeric_limits<unsigned int>::max() == link_id)
+                    {
+                        HUMOTO_THROW_MSG(std::string("Unknown link: ") + string_id);
+                    }
+
+                    return (link_id);
                 }
 
 
-- 
2.43.0


From 9ae901f6c490e6ce6837312f37951ea3979ebba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:05 +0000
Subject: [PATCH 51/59] fix: velocities of tags refer to their origins

---
 .../include/pepper_ik/task_tagcompletevel.h   |  4 +--
 .../include/pepper_ik/whole_body_controller.h | 27 ++++++++++++++++---
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h b/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h
index 18d3ac3..93dd3fd 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h
@@ -92,9 +92,7 @@ namespace humoto
                     model.getTagCompleteJacobian(A, tag_);
                     
                     b.noalias() = k_complete_velocity_gain_ * 
-                            wb_controller.getTagVelocityInGlobal(model, tag_string_id_,
-                                      wb_controller.getTagVelocityInLocal(tag_string_id_, rbdl::SpatialType::COMPLETE),
-                                        rbdl::SpatialType::COMPLETE);
+                            wb_controller.getTagOriginVelocityInGlobal(model, tag_string_id_);
 
                     if(!isApproximatelyEqual(1.0, getGain()))
                     {
diff --git a/modules/pepper_ik/include/pepper_ik/whole_body_controller.h b/modules/pepper_ik/include/pepper_ik/whole_body_controller.h
index d04acda..b377246 100644
--- a/modules/pepper_ik/include/pepper_ik/whole_body_controller.h
+++ b/modules/pepper_ik/include/pepper_ik/whole_body_controller.h
@@ -153,6 +153,28 @@ namespace humoto
                 }
 
 
+                /**
+                 * @brief Get velocity of the origin of a tag in global frame
+                 *
+                 * @param[in] model
+                 * @param[in] tag_name
+                 *
+                 * @return angular and translational velocities
+                 */
+                etools::Vector6 getTagOriginVelocityInGlobal(const humoto::pepper_ik::Model<t_features>& model,
+                                                             const std::string&                          tag_name) const
+                {
+                    const etools::Matrix3   orientation = model.getTagOrientation(model.getLinkTag(tag_name));
+                    const Eigen::VectorXd   velocity_in_local = getTagVelocityInLocal(tag_name, rbdl::SpatialType::COMPLETE);
+
+                    etools::Vector6         velocity_in_global;
+                    velocity_in_global << orientation * velocity_in_local.tail(3),
+                                          orientation * velocity_in_local.head(3);
+
+                    return(velocity_in_global);
+                }
+
+
                 /**
                  * @brief Get desired tag(s) pose in global frame
                  *
@@ -175,10 +197,7 @@ namespace humoto
                                                                                  rigidbody::EulerAngles::RPY);
 
                         tag_pose.tail(part_size) = model.getTagPosition(tag) + wbc_parameters_.control_interval_ *
-                                                                    getTagVelocityInGlobal(model, i->first,
-                                                                      getTagVelocityInLocal(i->first,
-                                                                             rbdl::SpatialType::COMPLETE),
-                                                                                rbdl::SpatialType::TRANSLATION); 
+                                                                    getTagOriginVelocityInGlobal(model, i->first).tail(part_size);
                         
                         tags_desired_pose_global_[i->first] = tag_pose;
                     }
-- 
2.43.0


From 189818fcfaef5fd39c2804ca249ed8c2833d8148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:05 +0000
Subject: [PATCH 52/59] fix: tasks kept tags of earlier configurations and
 models

---
 modules/pepper_ik/include/pepper_ik/task_tagangularvel.h  | 5 +----
 modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h | 5 +----
 modules/pepper_ik/include/pepper_ik/task_tagorient.h      | 5 +----
 modules/pepper_ik/include/pepper_ik/task_tagpose.h        | 5 +----
 modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h    | 5 +----
 5 files changed, 5 insertions(+), 20 deletions(-)

diff --git a/modules/pepper_ik/include/pepper_ik/task_tagangularvel.h b/modules/pepper_ik/include/pepper_ik/task_tagangularvel.h
index f1c2c1d..642c6a4 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagangularvel.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagangularvel.h
@@ -81,10 +81,7 @@ namespace humoto
                     const WholeBodyController<t_features>& wb_controller =
                         dynamic_cast <const WholeBodyController<t_features>& >(control_problem);
 
-                    if(!tag_)
-                    {
-                        tag_ = model.getLinkTag(tag_string_id_);
-                    }
+                    tag_ = model.getLinkTag(tag_string_id_);
 
                     Eigen::MatrixXd &A = getA();
                     Eigen::VectorXd &b = getB();
diff --git a/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h b/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h
index 93dd3fd..86d122a 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagcompletevel.h
@@ -81,10 +81,7 @@ namespace humoto
                     const WholeBodyController<t_features>& wb_controller =
                         dynamic_cast <const WholeBodyController<t_features>& >(control_problem);
 
-                    if(!tag_)
-                    {
-                        tag_ = model.getLinkTag(tag_string_id_);
-                    }
+                    tag_ = model.getLinkTag(tag_string_id_);
 
                     Eigen::MatrixXd &A = getA();
                     Eigen::VectorXd &b = getB();
diff --git a/modules/pepper_ik/include/pepper_ik/task_tagorient.h b/modules/pepper_ik/include/pepper_ik/task_tagorient.h
index 2a51700..16efd4c 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagorient.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagorient.h
@@ -83,10 +83,7 @@ namespace humoto
                     const Model<t_features>  &model   =
                         dynamic_cast <const Model<t_features> &>(model_base);
 
-                    if(!tag_)
-                    {
-                        tag_ = model.getLinkTag(tag_string_id_);
-                    }
+                    tag_ = model.getLinkTag(tag_string_id_);
 
                     Eigen::MatrixXd &A = getA();
                     Eigen::VectorXd &b = getB();
diff --git a/modules/pepper_ik/include/pepper_ik/task_tagpose.h b/modules/pepper_ik/include/pepper_ik/task_tagpose.h
index 2a7bd9b..768bff8 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagpose.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagpose.h
@@ -81,10 +81,7 @@ namespace humoto
                     const WholeBodyController<t_features>& wb_controller =
                         dynamic_cast <const WholeBodyController<t_features>& >(control_problem);
 
-                    if(!tag_)
-                    {
-                        tag_ = model.getLinkTag(tag_string_id_);
-                    }
+                    tag_ = model.getLinkTag(tag_string_id_);
 
                     Eigen::MatrixXd &A = getA();
                     Eigen::VectorXd &b = getB();
diff --git a/modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h b/modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h
index ca8c8b3..f20d12b 100644
--- a/modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h
+++ b/modules/pepper_ik/include/pepper_ik/task_tagpose3dof.h
@@ -83,10 +83,7 @@ namespace humoto
                     const WholeBodyController<t_features>& wb_controller =
                         dynamic_cast <const WholeBodyController<t_features>& >(control_problem);
 
-                    if(!tag_)
-                    {
-                        tag_ = model.getLinkTag(tag_string_id_);
-                    }
+                    tag_ = model.getLinkTag(tag_string_id_);
 
                     Eigen::MatrixXd &A = getA();
                     Eigen::VectorXd &b = getB();
-- 
2.43.0


From fa955b88dacc5cf5fdc84bc9abac635c2d16925f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:05 +0000
Subject: [PATCH 53/59] fix: functions of pepper_ik which could not be compiled

---
 modules/pepper_ik/include/pepper_ik/model.h                 | 4 ++--
 modules/pepper_ik/include/pepper_ik/whole_body_controller.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/pepper_ik/include/pepper_ik/model.h b/modules/pepper_ik/include/pepper_ik/model.h
index 4513aaf..b880f3e 100644
--- a/modules/pepper_ik/include/pepper_ik/model.h
+++ b/modules/pepper_ik/include/pepper_ik/model.h
@@ -685,8 +685,8 @@ namespace humoto
                     etools::Vector3 root_from;
                     etools::Vector3 root_to;
 
-                    ModelDescription<t_features>::getRootPosition(root_from, generalized_coordinates_from.joint_angles_);
-                    ModelDescription<t_features>::getRootPosition(root_to, generalized_coordinates_to.joint_angles_);
+                    generalized_coordinates_from.getRootPosition(root_from);
+                    generalized_coordinates_to.getRootPosition(root_to);
 
                     if (! root_from.isApprox(root_to, error_tol))
                     {
diff --git a/modules/pepper_ik/include/pepper_ik/whole_body_controller.h b/modules/pepper_ik/include/pepper_ik/whole_body_controller.h
index b377246..1e5ec52 100644
--- a/modules/pepper_ik/include/pepper_ik/whole_body_controller.h
+++ b/modules/pepper_ik/include/pepper_ik/whole_body_controller.h
@@ -329,7 +329,7 @@ namespace humoto
                         const humoto::pepper_ik::Model<t_features>                      &model) const
                 {
                     HUMOTO_ASSERT(solution_is_parsed_ == true, "This function can be called only after the solution is parsed.");
-                    return(model.state_);
+                    return(model.getState());
                 }
 
 
-- 
2.43.0


From 52f837476f5af25ea5a5594922e1cefcf72e7a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:34 +0000
Subject: [PATCH 54/59] fix: yaw of the base was wrong when it is negative

---
 modules/pepper_ik/include/pepper_ik/model.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/pepper_ik/include/pepper_ik/model.h b/modules/pepper_ik/include/pepper_ik/model.h
index b880f3e..03f1088 100644
--- a/modules/pepper_ik/include/pepper_ik/model.h
+++ b/modules/pepper_ik/include/pepper_ik/model.h
@@ -437,7 +437,10 @@ namespace humoto
                  */
                 double getBaseYaw() const
                 {
-                    return (convertMatrixToEulerAngles(getBaseOrientation(), rigidbody::EulerAngles::RPY).z());
+                    // Euler angles are not unique, extraction of all angles
+                    // returns yaw in [0, pi].
+                    const etools::Matrix3 base_orientation = getBaseOrientation();
+                    return (std::atan2(base_orientation(1,0), base_orientation(0,0)));
                 }
 
 
-- 
2.43.0


From 92736a7db5128338245202c14f6cdbc2c6f12ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:26 +0000
Subject: [PATCH 55/59] fix: axes of TaskBodyCoMTracking missing from the file
 kept values of an earlier load

---
 modules/pepper_ik/include/pepper_ik/task_bodycom.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/pepper_ik/include/pepper_ik/task_bodycom.h b/modules/pepper_ik/include/pepper_ik/task_bodycom.h
index c35485d..890db1d 100644
--- a/modules/pepper_ik/include/pepper_ik/task_bodycom.h
+++ b/modules/pepper_ik/include/pepper_ik/task_bodycom.h
@@ -36,6 +36,7 @@ namespace humoto
                 {
                     TaskAB::setDefaults();
                     k_position_gain_ = 0.0;
+                    axis_flag_ = AxisIndex::FLAG_X | AxisIndex::FLAG_Y | AxisIndex::FLAG_Z;
                 }
 
 
-- 
2.43.0


From a4b0e1cb62698e5f065ebaa4045b2d17445f99f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:58 +0000
Subject: [PATCH 56/59] fix: derived parameters of the whole body controller
 were not updated with the defaults

---
 modules/pepper_ik/include/pepper_ik/common.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/pepper_ik/include/pepper_ik/common.h b/modules/pepper_ik/include/pepper_ik/common.h
index 47844b9..55ab690 100644
--- a/modules/pepper_ik/include/pepper_ik/common.h
+++ b/modules/pepper_ik/include/pepper_ik/common.h
@@ -44,6 +44,8 @@ namespace humoto
                     joint_angle_error_tolerance_    = 1e-2;
                     maximal_number_of_iterations_   = 3;
                     motion_parameters_tolerance_    = 1e-3;
+
+                    finalize();
                 }
 
                 void finalize()
-- 
2.43.0


From 645225049311b01e27c61c9deb5b4e8d3395c87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:12 +0000
Subject: [PATCH 57/59] fix: the name given to the log of an optimization
 problem was ignored

All hierarchies logged under one parent got the same entries.
---
 core/include/humoto/hierarchy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/humoto/hierarchy.h b/core/include/humoto/hierarchy.h
index 06ce457..e14d800 100644
--- a/core/include/humoto/hierarchy.h
+++ b/core/include/humoto/hierarchy.h
@@ -295,7 +295,7 @@ namespace humoto
                            const std::string & name = "") const
             {
                 LogEntryName subname = parent;
-                subname.add("tasks");
+                subname.add(name).add("tasks");
 
                 for (std::size_t i = 0; i < getNumberOfLevels(); ++i)
                 {
-- 
2.43.0


From fc17200f59cf67273d25ed9f375a7dac9c8ef95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:09 +0000
Subject: [PATCH 58/59] fix: status and type of the Hessian of a new QP problem
 were not initialized

They are logged with the problem before it is formed for the first time.
---
 core/include/humoto/qp_problem.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/include/humoto/qp_problem.h b/core/include/humoto/qp_problem.h
index 65e82ab..7d9ce51 100644
--- a/core/include/humoto/qp_problem.h
+++ b/core/include/humoto/qp_problem.h
@@ -47,6 +47,13 @@ namespace humoto
 
 
         public:
+            QPObjective()
+            {
+                hessian_type_ = HESSIAN_UNDEFINED;
+                status_ = UNDEFINED;
+            }
+
+
             /**
              * @brief Generates (general) objective containing all constraints on this level
              *
-- 
2.43.0


From ed47813140489a1a4e6825e35f0cbd4fb36fbe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:21 +0000
Subject: [PATCH 59/59] fix: quadprogpp solutions were described as Ok after a
 failure

The solver front end treats every status except OK as a failure.
---
 bridges/QuadProgpp/interface/quadprogpp/solution.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bridges/QuadProgpp/interface/quadprogpp/solution.h b/bridges/QuadProgpp/interface/quadprogpp/solution.h
index b388ffb..a3167a9 100644
--- a/bridges/QuadProgpp/interface/quadprogpp/solution.h
+++ b/bridges/QuadProgpp/interface/quadprogpp/solution.h
@@ -31,13 +31,13 @@ namespace humoto
                  */
                 std::string getStatusDescription() const
                 {
-                    if (quadprogpp_return_value_ == std::numeric_limits<double>::infinity())
+                    if (quadprogpp_return_value_ == QuadProgpp::Status::OK)
                     {
-                        return ("quadprogpp: an infeasible or degenerate problem.");
+                        return ("quadprogpp: Ok.");
                     }
                     else
                     {
-                        return ("quadprogpp: Ok.");
+                        return ("quadprogpp: an infeasible or degenerate problem.");
                     }
                 }
 
-- 
2.43.0

