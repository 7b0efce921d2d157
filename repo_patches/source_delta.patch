From 471c5b6cadd953a358b5697db34efc9f81c1d380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:20 +0000
Subject: [PATCH 01/78] fix: match checkpoint file names of the model exactly

---
 .../procedures/model_state_files.py                | 14 +++++++-------
 .../procedures/model_training.py                   | 10 +++++-----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/hookeai/model_architectures/procedures/model_state_files.py b/src/hookeai/model_architectures/procedures/model_state_files.py
index adb7b72..ce13646 100644
--- a/src/hookeai/model_architectures/procedures/model_state_files.py
+++ b/src/hookeai/model_architectures/procedures/model_state_files.py
@@ -293,8 +293,8 @@ def check_state_file(model, filename):
         is_state_file=True, None otherwise.
     """
     # Check if file is model epoch state file
-    is_state_file = bool(re.search(r'^' + model.model_name + r'-[0-9]+'
-                                   + r'\.pt', filename))
+    is_state_file = bool(re.search(r'^' + re.escape(model.model_name)
+                                   + r'-[0-9]+' + r'\.pt$', filename))
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     epoch = None
     if is_state_file:
@@ -327,14 +327,14 @@ def check_best_state_file(model, filename):
         otherwise.
     """
     # Check if file is model epoch best state file
-    is_best_state_file = bool(re.search(r'^' + model.model_name
-                                        + r'-?[0-9]*' + r'-best' + r'\.pt',
-                                        filename))
+    match = re.search(r'^' + re.escape(model.model_name) + r'(?:-([0-9]+))?'
+                      + r'-best' + r'\.pt$', filename)
+    is_best_state_file = bool(match)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     epoch = None
-    if is_best_state_file:
+    if is_best_state_file and match.group(1) is not None:
         # Get model state epoch
-        epoch = int(os.path.splitext(filename)[0].split('-')[-2])
+        epoch = int(match.group(1))
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return is_best_state_file, epoch
 # =============================================================================
diff --git a/src/hookeai/model_architectures/procedures/model_training.py b/src/hookeai/model_architectures/procedures/model_training.py
index 0c3ac12..46974bf 100644
--- a/src/hookeai/model_architectures/procedures/model_training.py
+++ b/src/hookeai/model_architectures/procedures/model_training.py
@@ -115,9 +115,9 @@ def save_training_state(model, optimizer, state_type, epoch=None,
             for filename in directory_list:
                 # Check if file is optimizer epoch best state file
                 is_best_state_file = \
-                    bool(re.search(r'^' + model.model_name + r'_optim'
-                                   + r'-?[0-9]*' + r'-best' + r'\.pt',
-                                   filename))
+                    bool(re.search(r'^' + re.escape(model.model_name)
+                                   + r'_optim' + r'(?:-[0-9]+)?' + r'-best'
+                                   + r'\.pt$', filename))
                 # Delete state file
                 if is_best_state_file:
                     os.remove(os.path.join(model.model_directory, filename))
@@ -148,8 +148,8 @@ def remove_posterior_optim_state_files(model, epoch):
     # Loop over files in material patch model directory
     for filename in directory_list:
         # Check if file is optimizer epoch state file
-        is_state_file = bool(re.search(r'^' + model.model_name + r'_optim'
-                             + r'-[0-9]+' + r'\.pt', filename))
+        is_state_file = bool(re.search(r'^' + re.escape(model.model_name)
+                             + r'_optim' + r'-[0-9]+' + r'\.pt$', filename))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Delete optimizer epoch state file posterior to given epoch
         if is_state_file:
-- 
2.43.0


From 0e3e91f799acc5e149f9de87d94cad17cab08e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:20 +0000
Subject: [PATCH 02/78] fix: delete posterior checkpoints only after the
 requested one is loaded

---
 .../procedures/model_state_files.py              | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/hookeai/model_architectures/procedures/model_state_files.py b/src/hookeai/model_architectures/procedures/model_state_files.py
index ce13646..319589c 100644
--- a/src/hookeai/model_architectures/procedures/model_state_files.py
+++ b/src/hookeai/model_architectures/procedures/model_state_files.py
@@ -176,20 +176,12 @@ def load_model_state(model, model_load_state=None, is_remove_posterior=True):
         model_state_file += '-init'
         # Set epoch
         epoch = 0
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Delete model epoch state files posterior to loaded epoch
-        if is_remove_posterior:
-            remove_posterior_state_files(model, epoch)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     elif isinstance(model_load_state, int):
         # Get epoch
         epoch = model_load_state
         # Set model state filename with epoch
         model_state_file += '-' + str(int(epoch))
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Delete model epoch state files posterior to loaded epoch
-        if is_remove_posterior:
-            remove_posterior_state_files(model, epoch)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     elif model_load_state == 'best':
         # Get state files in model directory
@@ -222,10 +214,6 @@ def load_model_state(model, model_load_state=None, is_remove_posterior=True):
             if isinstance(epoch, int):
                 model_state_file += '-' + str(epoch)
             model_state_file += '-' + 'best'
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Delete model epoch state files posterior to loaded epoch
-        if isinstance(epoch, int) and is_remove_posterior:
-            remove_posterior_state_files(model, epoch)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     elif model_load_state == 'last':
         # Get state files in model directory
@@ -269,6 +257,10 @@ def load_model_state(model, model_load_state=None, is_remove_posterior=True):
     model.load_state_dict(torch.load(model_path,
                                      map_location=torch.device('cpu')))
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Delete model epoch state files posterior to loaded epoch
+    if isinstance(epoch, int) and is_remove_posterior:
+        remove_posterior_state_files(model, epoch)
+    # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return epoch
 # =============================================================================
 def check_state_file(model, filename):
-- 
2.43.0


From b81a7aaae435c43daa670666189a9389e5e83307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:54 +0000
Subject: [PATCH 03/78] fix: remove the previous best checkpoint only after the
 new one is saved

---
 .../procedures/model_state_files.py           | 12 ++++++-----
 .../procedures/model_training.py              | 20 ++++++++++---------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/hookeai/model_architectures/procedures/model_state_files.py b/src/hookeai/model_architectures/procedures/model_state_files.py
index 319589c..606cbef 100644
--- a/src/hookeai/model_architectures/procedures/model_state_files.py
+++ b/src/hookeai/model_architectures/procedures/model_state_files.py
@@ -99,15 +99,15 @@ def save_model_state(model, state_type='default', epoch=None,
         if state_type == 'best':
             # Set model state corresponding to the best performance
             model_state_file += '-' + 'best'
-            # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-            # Remove any existent best model state file
-            remove_best_state_files(model)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set model state file path
     model_path = os.path.join(model.model_directory,
                               model_state_file + '.pt')
     # Save model state
     torch.save(model.state_dict(), model_path)
+    # Remove any previously existent best model state file
+    if state_type == 'best':
+        remove_best_state_files(model, keep=model_state_file + '.pt')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Delete model epoch state files posterior to saved epoch
     if isinstance(epoch, int) and is_remove_posterior:
@@ -350,13 +350,15 @@ def remove_posterior_state_files(model, epoch):
         if is_state_file and file_epoch > epoch:
             os.remove(os.path.join(model.model_directory, filename))
 # =============================================================================
-def remove_best_state_files(model):
+def remove_best_state_files(model, keep=None):
     """Delete existent model best state files.
     
     Parameters
     ----------
     model : torch.nn.Module
         Model.
+    keep : str, default=None
+        Name of model best state file that is not deleted.
     """
     # Get files in model directory
     directory_list = os.listdir(model.model_directory)
@@ -365,5 +367,5 @@ def remove_best_state_files(model):
         # Check if file is model best state file
         is_best_state_file, _ = check_best_state_file(model, filename)
         # Delete state file
-        if is_best_state_file:
+        if is_best_state_file and filename != keep:
             os.remove(os.path.join(model.model_directory, filename))
\ No newline at end of file
diff --git a/src/hookeai/model_architectures/procedures/model_training.py b/src/hookeai/model_architectures/procedures/model_training.py
index 46974bf..3fa8cbe 100644
--- a/src/hookeai/model_architectures/procedures/model_training.py
+++ b/src/hookeai/model_architectures/procedures/model_training.py
@@ -108,7 +108,15 @@ def save_training_state(model, optimizer, state_type, epoch=None,
         if state_type == 'best':
             # Set optimizer state corresponding to the best performance
             optimizer_state_file += '-' + 'best'
-            # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # Set optimizer state file path
+        optimizer_path = os.path.join(model.model_directory,
+                                      optimizer_state_file + '.pt')
+        # Save optimizer state
+        optimizer_state = dict(state=optimizer.state_dict(), epoch=epoch)
+        torch.save(optimizer_state, optimizer_path)
+        # Remove any previously existent best optimizer state file
+        if state_type == 'best':
             # Get files in model directory
             directory_list = os.listdir(model.model_directory)
             # Loop over files in model directory
@@ -119,16 +127,10 @@ def save_training_state(model, optimizer, state_type, epoch=None,
                                    + r'_optim' + r'(?:-[0-9]+)?' + r'-best'
                                    + r'\.pt$', filename))
                 # Delete state file
-                if is_best_state_file:
+                if (is_best_state_file
+                        and filename != optimizer_state_file + '.pt'):
                     os.remove(os.path.join(model.model_directory, filename))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Set optimizer state file path
-        optimizer_path = os.path.join(model.model_directory,
-                                      optimizer_state_file + '.pt')
-        # Save optimizer state
-        optimizer_state = dict(state=optimizer.state_dict(), epoch=epoch)
-        torch.save(optimizer_state, optimizer_path)
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Delete optimizer epoch state files posterior to saved epoch
         if isinstance(epoch, int) and is_remove_posterior:
             remove_posterior_optim_state_files(model, epoch)
-- 
2.43.0


From b754af9e629abc01caf388a5e994050c4b8e2b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:49 +0000
Subject: [PATCH 04/78] fix: pass the seeded generator to the data loader

---
 .../model_architectures/hybrid_base_model/predict/prediction.py | 2 +-
 .../model_architectures/hybrid_base_model/train/training.py     | 2 +-
 .../model_architectures/rc_base_model/predict/prediction.py     | 2 +-
 src/hookeai/model_architectures/rc_base_model/train/training.py | 2 +-
 .../model_architectures/rnn_base_model/predict/prediction.py    | 2 +-
 .../model_architectures/rnn_base_model/train/training.py        | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py b/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
index 407b301..1a32126 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
@@ -170,7 +170,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
     if isinstance(seed, int):
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            worker_init_fn=seed_worker, generator=generator)
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size)
diff --git a/src/hookeai/model_architectures/hybrid_base_model/train/training.py b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
index a4fd28c..1fc9fd5 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/train/training.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
@@ -290,7 +290,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
             is_shuffle=is_sampler_shuffle,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            worker_init_fn=seed_worker, generator=generator)
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
diff --git a/src/hookeai/model_architectures/rc_base_model/predict/prediction.py b/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
index dd3ad18..4896622 100644
--- a/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
@@ -171,7 +171,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
     if isinstance(seed, int):
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            worker_init_fn=seed_worker, generator=generator)
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size)
diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index 73ac351..4e40787 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -333,7 +333,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
             is_shuffle=is_sampler_shuffle,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            worker_init_fn=seed_worker, generator=generator)
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
diff --git a/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py b/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
index e142019..9a79bf3 100644
--- a/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
@@ -170,7 +170,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
     if isinstance(seed, int):
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            worker_init_fn=seed_worker, generator=generator)
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size)
diff --git a/src/hookeai/model_architectures/rnn_base_model/train/training.py b/src/hookeai/model_architectures/rnn_base_model/train/training.py
index a857373..47a6ccc 100644
--- a/src/hookeai/model_architectures/rnn_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rnn_base_model/train/training.py
@@ -285,7 +285,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
             is_shuffle=is_sampler_shuffle,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            worker_init_fn=seed_worker, generator=generator)
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
-- 
2.43.0


From d2dd6e5c2af3d45f39dc97933149a87d34f4e6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:02 +0000
Subject: [PATCH 05/78] fix: give the state type when saving the validation
 state

---
 .../model_architectures/hybrid_base_model/train/training.py    | 3 ++-
 .../model_architectures/rc_base_model/train/training.py        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/train/training.py b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
index 1fc9fd5..81a6144 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/train/training.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
@@ -961,7 +961,8 @@ class EarlyStopper:
             # Update temporary state files flag
             is_state_file_temp = True
             # Save state files
-            save_training_state(model=model, optimizer=optimizer, epoch=epoch)
+            save_training_state(model=model, optimizer=optimizer,
+                                state_type='epoch', epoch=epoch)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Prediction with model
         _, avg_valid_loss_sample = predict(
diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index 4e40787..780ec00 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -1170,7 +1170,8 @@ class EarlyStopper:
             # Update temporary state files flag
             is_state_file_temp = True
             # Save state files
-            save_training_state(model=model, optimizer=optimizer, epoch=epoch)
+            save_training_state(model=model, optimizer=optimizer,
+                                state_type='epoch', epoch=epoch)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Set prediction loss normalization
         if is_normalized_loss or model.is_model_out_normalized:
-- 
2.43.0


From 98b2ad830c7c1f21dd06342f6da9b4290c4fabb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:02 +0000
Subject: [PATCH 06/78] fix: keep the early stopping decision when parameters
 convergence is checked

---
 .../model_architectures/rc_base_model/train/training.py     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index 780ec00..449d875 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -530,7 +530,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Check model parameters convergence
         if is_params_stopping:
-            is_stop_training, parameters_status = \
+            is_params_converged, parameters_status = \
                 check_model_parameters_convergence(
                     model_parameters_history_epochs, is_verbose=is_verbose,
                     **params_stopping_kwargs)
@@ -540,7 +540,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
             # Completed maximum number of epochs
             is_keep_training = False
             break
-        elif is_params_stopping and is_stop_training:
+        elif is_params_stopping and is_params_converged:
             # Parameters convergence criterion triggered
             is_keep_training = False
             break
@@ -556,7 +556,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         if is_early_stopping and is_stop_training:
             print('\n\n> Early stopping has been triggered!',
                   '\n\n> Finished training process!')
-        elif is_params_stopping and is_stop_training:
+        elif is_params_stopping and is_params_converged:
             print('\n\n> Parameters convergence has been triggered!',
                   '\n\n> Finished training process!')
         else:
-- 
2.43.0


From c85d633cfbdbaa0e56d276e3651addcfd0cc2d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:02 +0000
Subject: [PATCH 07/78] fix: average the epoch time over the completed epochs

---
 src/hookeai/material_model_finder/train/training.py             | 2 +-
 .../model_architectures/hybrid_base_model/train/training.py     | 2 +-
 src/hookeai/model_architectures/rc_base_model/train/training.py | 2 +-
 .../model_architectures/rnn_base_model/train/training.py        | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/material_model_finder/train/training.py b/src/hookeai/material_model_finder/train/training.py
index 599adc0..c5a4f7a 100644
--- a/src/hookeai/material_model_finder/train/training.py
+++ b/src/hookeai/material_model_finder/train/training.py
@@ -388,7 +388,7 @@ def train_model(n_max_epochs, specimen_data, specimen_material_state,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Compute total training time and average training time per epoch
     total_time_sec = time.time() - start_time_sec
-    avg_time_epoch = total_time_sec/epoch
+    avg_time_epoch = total_time_sec/(epoch + 1)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print(f'\n> Model directory: {model.model_directory}')
diff --git a/src/hookeai/model_architectures/hybrid_base_model/train/training.py b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
index 81a6144..c3f98ae 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/train/training.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
@@ -528,7 +528,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Compute total training time and average training time per epoch
     total_time_sec = time.time() - start_time_sec
-    avg_time_epoch = total_time_sec/epoch
+    avg_time_epoch = total_time_sec/(epoch + 1)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print(f'\n> Model directory: {model.model_directory}')
diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index 449d875..1a3d8fc 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -597,7 +597,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Compute total training time and average training time per epoch
     total_time_sec = time.time() - start_time_sec
-    avg_time_epoch = total_time_sec/epoch
+    avg_time_epoch = total_time_sec/(epoch + 1)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print(f'\n> Model directory: {model.model_directory}')
diff --git a/src/hookeai/model_architectures/rnn_base_model/train/training.py b/src/hookeai/model_architectures/rnn_base_model/train/training.py
index 47a6ccc..50d472e 100644
--- a/src/hookeai/model_architectures/rnn_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rnn_base_model/train/training.py
@@ -482,7 +482,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Compute total training time and average training time per epoch
     total_time_sec = time.time() - start_time_sec
-    avg_time_epoch = total_time_sec/epoch
+    avg_time_epoch = total_time_sec/(epoch + 1)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print(f'\n> Model directory: {model.model_directory}')
-- 
2.43.0


From b16746fef40ac07b2e9aa349080a348e161d6e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:09 +0000
Subject: [PATCH 08/78] fix: convert nested dictionaries to tensors

---
 src/hookeai/utilities/type_conversion.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/utilities/type_conversion.py b/src/hookeai/utilities/type_conversion.py
index 2a93412..c00ed7e 100644
--- a/src/hookeai/utilities/type_conversion.py
+++ b/src/hookeai/utilities/type_conversion.py
@@ -55,7 +55,7 @@ def convert_dict_to_tensor(data_dict, is_inplace=True):
             # Perform type conversion
             if isinstance(value, dict):
                 # Process nested dictionary recursively
-                data_dict[key] = convert_dict_to_tensor(value, in_place=True)
+                data_dict[key] = convert_dict_to_tensor(value, is_inplace=True)
             elif (isinstance(value, (int, float, bool))
                 and not isinstance(value, torch.Tensor)):
                 # Convert to torch tensor
@@ -69,11 +69,14 @@ def convert_dict_to_tensor(data_dict, is_inplace=True):
             if isinstance(value, dict):
                 # Process nested dictionary recursively
                 local_data_dict[key] = \
-                    convert_dict_to_tensor(value, in_place=False)
+                    convert_dict_to_tensor(value, is_inplace=False)
             elif (isinstance(value, (int, float, bool))
                 and not isinstance(value, torch.Tensor)):
                 # Convert to torch tensor
                 local_data_dict[key] = torch.tensor(value)
+            else:
+                # Keep value unchanged
+                local_data_dict[key] = value
         # Assign pointer
         data_dict = local_data_dict
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From 235f6f713e9bfbdddf1e61e6968ee8807d58110c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:09 +0000
Subject: [PATCH 09/78] fix: leave nested dictionaries untouched when
 converting out of place

---
 src/hookeai/utilities/type_conversion.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/utilities/type_conversion.py b/src/hookeai/utilities/type_conversion.py
index c00ed7e..bf14ad8 100644
--- a/src/hookeai/utilities/type_conversion.py
+++ b/src/hookeai/utilities/type_conversion.py
@@ -145,7 +145,8 @@ def convert_dict_to_float32(tensor_dict, is_inplace=True):
             # Perform type conversion
             if isinstance(value, dict):
                 # Process nested dictionary recursively
-                local_tensor_dict[key] = convert_dict_to_float32(value)
+                local_tensor_dict[key] = \
+                    convert_dict_to_float32(value, is_inplace=False)
             elif (isinstance(value, torch.Tensor)
                 and torch.is_floating_point(value)):
                 # Convert torch tensor to torch.float32
@@ -221,7 +222,8 @@ def convert_dict_to_float64(tensor_dict, is_inplace=True):
             # Perform type conversion
             if isinstance(value, dict):
                 # Process nested dictionary recursively
-                local_tensor_dict[key] = convert_dict_to_float64(value)
+                local_tensor_dict[key] = \
+                    convert_dict_to_float64(value, is_inplace=False)
             elif (isinstance(value, torch.Tensor)
                 and torch.is_floating_point(value)):
                 # Convert torch tensor to torch.float64
-- 
2.43.0


From 069f8686132bc9c2a8a810c9916b6b10e4e0323c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:26 +0000
Subject: [PATCH 10/78] fix: keep the relative error loss gradient finite for
 zero targets

---
 src/hookeai/utilities/loss_functions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hookeai/utilities/loss_functions.py b/src/hookeai/utilities/loss_functions.py
index 79b2fca..5525d41 100644
--- a/src/hookeai/utilities/loss_functions.py
+++ b/src/hookeai/utilities/loss_functions.py
@@ -130,12 +130,12 @@ class MeanRelativeErrorLoss(torch.nn.Module):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute relative error
         if zero_handling == 'absolute':
-            # Compute relative error
-            relative_error = absolute_error/target.abs()
             # Assign absolute error to target values below minimum threshold
-            relative_error = \
-                torch.where(target.abs() < small, absolute_error,
-                            relative_error)
+            # (set unit denominator to keep loss gradient finite)
+            denominator = torch.where(target.abs() < small,
+                                      torch.ones_like(target), target.abs())
+            # Compute relative error
+            relative_error = absolute_error/denominator
         elif zero_handling == 'clip':
             # Clip target values below minimum threshold
             clipped_target = torch.maximum(
-- 
2.43.0


From 9b25ee93e3d796bd710ee311a0cdb6d1e0439cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:26 +0000
Subject: [PATCH 11/78] fix: read undefined and infinite mean metrics back from
 file

---
 src/hookeai/utilities/output_prediction_metrics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/utilities/output_prediction_metrics.py b/src/hookeai/utilities/output_prediction_metrics.py
index 2df140d..b660b31 100644
--- a/src/hookeai/utilities/output_prediction_metrics.py
+++ b/src/hookeai/utilities/output_prediction_metrics.py
@@ -375,9 +375,10 @@ def read_mean_metrics_results_file(file_path, n_sample=None):
             # Collect metric data (assumes values are formatted in scientific
             # notation)
             prefix_pattern = r'^\s*>\s*(\w+):\s*'
+            number_pattern = r'-?(?:nan|inf|\d*\.?\d*(?:e[-+]?\d+)?)'
             number_list_pattern = (r'\[\s*'
-                                   r'((?:-?\d*\.?\d*(?:e[-+]?\d+)'
-                                   r'?(?:\s*,\s*-?\d*\.?\d*(?:e[-+]?\d+)?)*))'
+                                   r'(' + number_pattern
+                                   + r'(?:\s*,\s*' + number_pattern + r')*)'
                                    r'\s*\]')
             metric_data = \
                 re.search(prefix_pattern + number_list_pattern, line)
-- 
2.43.0


From 24c79085a123a7dd69b1b0914f8224d5e0169fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:33 +0000
Subject: [PATCH 12/78] fix: report a zero average prediction loss in the
 summary

---
 src/hookeai/model_architectures/procedures/model_prediction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/model_architectures/procedures/model_prediction.py b/src/hookeai/model_architectures/procedures/model_prediction.py
index 0760016..a88aa3f 100644
--- a/src/hookeai/model_architectures/procedures/model_prediction.py
+++ b/src/hookeai/model_architectures/procedures/model_prediction.py
@@ -168,7 +168,7 @@ def write_prediction_summary_file(
         dataset_file_path if dataset_file_path else None
     summary_data['Prediction data set size'] = len(dataset)
     summary_data['Avg. prediction loss per sample'] = \
-        f'{avg_predict_loss:.8e}' if avg_predict_loss else None
+        f'{avg_predict_loss:.8e}' if avg_predict_loss is not None else None
     summary_data['Total prediction time'] = \
         str(datetime.timedelta(seconds=int(total_time_sec)))
     summary_data['Avg. prediction time per sample'] = \
-- 
2.43.0


From 8f86534602f7d07f089df95d1cf521e253abbaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:55 +0000
Subject: [PATCH 13/78] fix: set fitted data scalers of any model and scaling
 type

---
 .../model_architectures/procedures/model_data_scaling.py    | 6 +++---
 src/hookeai/simulators/fetorch/structure/structure_state.py | 6 ++++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/hookeai/model_architectures/procedures/model_data_scaling.py b/src/hookeai/model_architectures/procedures/model_data_scaling.py
index 31361a2..7c62246 100644
--- a/src/hookeai/model_architectures/procedures/model_data_scaling.py
+++ b/src/hookeai/model_architectures/procedures/model_data_scaling.py
@@ -91,7 +91,7 @@ def set_fitted_data_scalers(model, scaling_type, scaling_parameters):
         features normalization tensors.
     """
     # Initialize data scalers
-    model._init_data_scalers()
+    init_data_scalers(model)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Get input and output features scaling parameters
     scaling_parameters_in = scaling_parameters['features_in']
@@ -102,11 +102,11 @@ def set_fitted_data_scalers(model, scaling_type, scaling_parameters):
         # Instantiate data scalers
         scaler_features_in = TorchMinMaxScaler(
             model._n_features_in,
-            device_type=model._device_type
+            device_type=model._device_type,
             **scaling_parameters_in)
         scaler_features_out = TorchMinMaxScaler(
             model._n_features_out,
-            device_type=model._device_type
+            device_type=model._device_type,
             **scaling_parameters_out)
     elif scaling_type == 'mean-std':
         scaler_features_in = TorchStandardScaler(
diff --git a/src/hookeai/simulators/fetorch/structure/structure_state.py b/src/hookeai/simulators/fetorch/structure/structure_state.py
index 40e1a39..1989171 100644
--- a/src/hookeai/simulators/fetorch/structure/structure_state.py
+++ b/src/hookeai/simulators/fetorch/structure/structure_state.py
@@ -26,6 +26,8 @@ from model_architectures.rc_base_model.model.recurrent_model import \
     RecurrentConstitutiveModel
 from model_architectures.hybrid_base_model.model.hybrid_model import \
     HybridModel
+from model_architectures.procedures.model_data_scaling import \
+    set_fitted_data_scalers
 #
 #                                                          Authorship & Credits
 # =============================================================================
@@ -298,8 +300,8 @@ class StructureMaterialState(torch.nn.Module):
             # Get data scaling parameters
             scaling_parameters = model_kwargs['scaling_parameters']
             # Set fitted model data scalers
-            constitutive_model.set_fitted_data_scalers(scaling_type,
-                                                       scaling_parameters)
+            set_fitted_data_scalers(constitutive_model, scaling_type,
+                                    scaling_parameters)
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Set recurrency structure
             is_recurrent_model = True
-- 
2.43.0


From b468349a85c33351c056a2d7842c87095fbdee52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:55 +0000
Subject: [PATCH 14/78] fix: scale the features of normalized models in a
 hybrid model

---
 .../hybrid_base_model/model/hybrid_model.py         | 10 ++++++----
 .../hybrid_base_model/model/hybridized_model.py     | 13 ++++++++++---
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py b/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py
index f483e64..6226c75 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py
@@ -627,8 +627,9 @@ class HybridModel(torch.nn.Module):
                 # Get hybridized model input features
                 if self.check_model_in_normalized(hyb_model):
                     # Normalize hybridized model input features
-                    hyb_model_features_in = hyb_model.data_scaler_transform(
-                        features_out, 'features_in', mode='normalize')
+                    hyb_model_features_in = data_scaler_transform(
+                        hyb_model, features_out, 'features_in',
+                        mode='normalize')
                 else:
                     hyb_model_features_in = features_out
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
@@ -639,8 +640,9 @@ class HybridModel(torch.nn.Module):
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Get hybridized model output features
                 if self.check_model_out_normalized(hyb_model):
-                    features_out = hyb_model.data_scaler_transform(
-                        features_out, 'features_out', mode='denormalize')
+                    features_out = data_scaler_transform(
+                        hyb_model, features_out, 'features_out',
+                        mode='denormalize')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Store hybridization channel output features
             list_features_out.append(features_out)
diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_model.py b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_model.py
index c1961e0..4f471d8 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_model.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_model.py
@@ -12,6 +12,8 @@ set_hybridized_model
 import os
 # Third-party
 import torch
+# Local
+from model_architectures.procedures.model_data_scaling import set_data_scalers
 #
 #                                                          Authorship & Credits
 # =============================================================================
@@ -93,7 +95,8 @@ def set_hybridized_model(model_class, hyb_indices, model_init_args=None,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set hybridized model data scalers
     if data_scalers is not None:
-        if hasattr(model_class, 'set_data_scalers'):
+        if (hasattr(model_class, 'set_data_scalers')
+                or hasattr(hyb_model, '_data_scalers')):
             # Check data scalers
             if isinstance(data_scalers, dict):
                 # Check data scaler for input features
@@ -107,8 +110,12 @@ def set_hybridized_model(model_class, hyb_indices, model_init_args=None,
                 else:
                     scaler_features_out = None
                 # Set hybridized model data scalers
-                hyb_model.set_data_scalers(scaler_features_in,
-                                           scaler_features_out)
+                if hasattr(model_class, 'set_data_scalers'):
+                    hyb_model.set_data_scalers(scaler_features_in,
+                                               scaler_features_out)
+                else:
+                    set_data_scalers(hyb_model, scaler_features_in,
+                                     scaler_features_out)
             else:
                 raise RuntimeError('Hybridized model data scalers must be '
                                    'provided as dictionary.') 
-- 
2.43.0


From 0c256cdba4505f8d8795e33f0ae765ee2b1427e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:06 +0000
Subject: [PATCH 15/78] fix: normalize constant features with the min-max data
 scaler

---
 src/hookeai/utilities/data_scalers.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/utilities/data_scalers.py b/src/hookeai/utilities/data_scalers.py
index df5cfba..62c302b 100644
--- a/src/hookeai/utilities/data_scalers.py
+++ b/src/hookeai/utilities/data_scalers.py
@@ -243,11 +243,17 @@ class TorchMinMaxScaler:
         # Get normalization bounds
         norm_minimum = self._norm_minimum
         norm_maximum = self._norm_maximum
+        # Set features range (avoid null division for constant features)
+        data_range = maximum - minimum
+        data_range = torch.where(
+            data_range == 0,
+            torch.full_like(data_range, norm_maximum - norm_minimum),
+            data_range)
         # Normalization features tensor
         transformed_tensor = \
             norm_minimum*torch.ones_like(tensor, device=input_device) \
             + torch.div((norm_maximum - norm_minimum)*torch.ones_like(
-                tensor, device=input_device), maximum - minimum)*(
+                tensor, device=input_device), data_range)*(
                     tensor - minimum)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Revert concatenation of sequential data
-- 
2.43.0


From cd8d75521817e4d21d73941d85a17a165ded8d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:04 +0000
Subject: [PATCH 16/78] fix: rename features of in-memory data sets and swap
 labels

---
 src/hookeai/time_series_data/time_dataset.py | 30 ++++++++------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/hookeai/time_series_data/time_dataset.py b/src/hookeai/time_series_data/time_dataset.py
index 5191dc2..68f2d12 100644
--- a/src/hookeai/time_series_data/time_dataset.py
+++ b/src/hookeai/time_series_data/time_dataset.py
@@ -215,25 +215,19 @@ def change_dataset_features_labels(dataset, features_label_map):
         each feature (key, str) data is a torch.Tensor(2d) of shape
         (sequence_length, n_features).
     """
-    # Loop over features
-    for old_label, new_label in features_label_map.items():        
-        # Probe feature existence
-        if old_label not in tuple(dataset[0].keys()):
-            continue
+    # Loop over samples
+    for i in range(len(dataset)):
+        # Get sample
+        sample = dataset[i]
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Loop over samples
-        for i in range(len(dataset)):
-            # Get sample
-            sample = dataset[i]
-            # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-            # Change feature label
-            sample[new_label] = sample.pop(old_label)
-            # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-            # Update data set sample
-            if isinstance(dataset, TimeSeriesDataset):
-                dataset.update_dataset_sample(i, sample)
-            else:
-                dataset[i] = sample      
+        # Change features labels (simultaneously)
+        sample.update({new_label: sample.pop(old_label)
+                       for old_label, new_label in features_label_map.items()
+                       if old_label in sample.keys()})
+        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # Update data set sample
+        if isinstance(dataset, TimeSeriesDataset):
+            dataset.update_dataset_sample(i, sample)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return dataset
 # =============================================================================
-- 
2.43.0


From f01c46c5bc0e494eb1d29d9c3c1439281ad907c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:04 +0000
Subject: [PATCH 17/78] fix: sum data set features without weights

---
 src/hookeai/time_series_data/time_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/time_series_data/time_dataset.py b/src/hookeai/time_series_data/time_dataset.py
index 68f2d12..fd097f9 100644
--- a/src/hookeai/time_series_data/time_dataset.py
+++ b/src/hookeai/time_series_data/time_dataset.py
@@ -388,7 +388,8 @@ def sum_dataset_features(dataset, new_feature_label, sum_features_labels,
     sum_weights = {}
     # Set sum weights
     for feature_label in sum_features_labels:
-        if feature_label in features_weights.keys():
+        if (features_weights is not None
+                and feature_label in features_weights.keys()):
             sum_weights[feature_label] = float(features_weights[feature_label])
         else:
             sum_weights[feature_label] = 1.0
-- 
2.43.0


From a57ff52731cd3aaf9b1a532c6fde7181193b107d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:04 +0000
Subject: [PATCH 18/78] fix: keep the new feature when removing the features it
 is built from

---
 src/hookeai/time_series_data/time_dataset.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/time_series_data/time_dataset.py b/src/hookeai/time_series_data/time_dataset.py
index fd097f9..3d2fb10 100644
--- a/src/hookeai/time_series_data/time_dataset.py
+++ b/src/hookeai/time_series_data/time_dataset.py
@@ -335,8 +335,9 @@ def concatenate_dataset_features(dataset, new_feature_label,
         # Remove concatenated features (in-memory data set only)
         if is_remove_features and is_in_memory_dataset:
             # Loop over concatenated features
-            for label in cat_features_labels:
-                sample.pop(label)
+            for label in set(cat_features_labels):
+                if label != str(new_feature_label):
+                    sample.pop(label)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Update data set sample
         if isinstance(dataset, TimeSeriesDataset):
@@ -421,8 +422,9 @@ def sum_dataset_features(dataset, new_feature_label, sum_features_labels,
         # Remove summed features (in-memory data set only)
         if is_remove_features and is_in_memory_dataset:
             # Loop over summed features
-            for label in sum_features_labels:
-                sample.pop(label)
+            for label in set(sum_features_labels):
+                if label != str(new_feature_label):
+                    sample.pop(label)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Update data set sample
         if isinstance(dataset, TimeSeriesDataset):
-- 
2.43.0


From 9ac8af9216ce44bc099b8cf0f9ac7f42e028d660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:04 +0000
Subject: [PATCH 19/78] fix: update the internal directory of a stored data set

---
 src/hookeai/time_series_data/time_dataset.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/hookeai/time_series_data/time_dataset.py b/src/hookeai/time_series_data/time_dataset.py
index 3d2fb10..b98d7ca 100644
--- a/src/hookeai/time_series_data/time_dataset.py
+++ b/src/hookeai/time_series_data/time_dataset.py
@@ -826,8 +826,7 @@ class TimeSeriesDataset(torch.utils.data.Dataset):
         # internal directory of the loaded data set
         if stored_directory != new_directory:
             # Update directory of PyTorch data set
-            dataset._update_dataset_directory(
-                new_directory, is_reload_data=is_reload_data)
+            dataset._update_dataset_directory(new_directory)
             # Save updated PyTorch data set (overwrite existing data set file)
             with open(dataset_file_path, 'wb') as dataset_file:
                 pickle.dump(loaded_dataset, dataset_file)
@@ -848,11 +847,11 @@ class TimeSeriesDataset(torch.utils.data.Dataset):
         if not os.path.isdir(dataset_directory):
             raise RuntimeError('The new time series data set directory has '
                                'not been found:\n\n' + dataset_directory)
-        else:
-            self._dataset_directory = dataset_directory
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # Initialize updated samples files
+        dataset_sample_files = []
         # Loop over samples files
-        for i, file_path in enumerate(self._dataset_sample_files):
+        for file_path in self._dataset_sample_files:
             # Set new sample file path (update directory)
             new_file_path = os.path.join(os.path.normpath(dataset_directory),
                                          os.path.basename(file_path))
@@ -862,7 +861,11 @@ class TimeSeriesDataset(torch.utils.data.Dataset):
                                    'in new dataset directory:\n\n'
                                    + dataset_directory)
             else:
-                self._dataset_sample_files[i] = new_file_path
+                dataset_sample_files.append(new_file_path)
+        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # Set new data set directory and samples files
+        self._dataset_directory = os.path.normpath(dataset_directory)
+        self._dataset_sample_files = dataset_sample_files
 # =============================================================================
 def split_dataset(dataset, split_sizes, is_copy_dataset=False,
                   is_save_subsets=False, subsets_directory=None,
-- 
2.43.0


From d49501e4368840ed99dfbf4dd362920419237560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:38 +0000
Subject: [PATCH 20/78] fix: predict data sets without ground truth

---
 .../model_architectures/hybrid_base_model/predict/prediction.py | 2 +-
 .../model_architectures/rc_base_model/predict/prediction.py     | 2 +-
 .../model_architectures/rnn_base_model/predict/prediction.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py b/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
index 1a32126..a153757 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
@@ -207,7 +207,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
                 features_in = batch['features_in']
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get output features ground-truth (None if not available)
-            targets = batch['features_out']
+            targets = batch.get('features_out')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get number of batched samples
             batch_n_sample = batch['features_in'].shape[1]
diff --git a/src/hookeai/model_architectures/rc_base_model/predict/prediction.py b/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
index 4896622..af10574 100644
--- a/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
@@ -208,7 +208,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
                 features_in = batch['features_in']
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get output features ground-truth (None if not available)
-            targets = batch['features_out']
+            targets = batch.get('features_out')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get number of batched samples
             batch_n_sample = batch['features_in'].shape[1]
diff --git a/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py b/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
index 9a79bf3..ec71e92 100644
--- a/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
@@ -212,7 +212,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
                 hidden_features_in = None
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get output features ground-truth (None if not available)
-            targets = batch['features_out']
+            targets = batch.get('features_out')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get number of batched samples
             batch_n_sample = batch['features_in'].shape[1]
-- 
2.43.0


From 2816eee781e8f532f12b2a13f76f933dc6f9aa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:09 +0000
Subject: [PATCH 21/78] fix: mirror symmetric components stored without Kelvin
 notation

---
 .../simulators/fetorch/math/matrixops.py      | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/math/matrixops.py b/src/hookeai/simulators/fetorch/math/matrixops.py
index a3ada03..43e95f2 100644
--- a/src/hookeai/simulators/fetorch/math/matrixops.py
+++ b/src/hookeai/simulators/fetorch/math/matrixops.py
@@ -378,14 +378,17 @@ def get_tensor_from_mf(tensor_mf, n_dim, comp_order, is_kelvin_notation=True,
         raise RuntimeError('Duplicated component in strain/stress components '
                            'order.')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-    # Set Kelvin notation flag
+    # Set symmetry and Kelvin notation flags
     if len(comp_order) == n_dim**2:
+        is_symmetric = False
         is_kelvin_notation = False
     elif len(comp_order) == sum(range(n_dim + 1)):
-        pass
+        is_symmetric = True
     else:
         raise RuntimeError('Invalid number of components in strain/stress '
                            'components order.')
+    # Set factor of independent off-diagonal components
+    kelvin_coefficient = math.sqrt(2) if is_kelvin_notation else 1.0
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Get tensor according to tensor order
     if tensor_order == 2:
@@ -407,8 +410,8 @@ def get_tensor_from_mf(tensor_mf, n_dim, comp_order, is_kelvin_notation=True,
             mf_idx = mf_indexes[i]
             so_idx = tuple(so_indexes[i])
             factor = 1.0
-            if is_kelvin_notation and not so_idx[0] == so_idx[1]:
-                factor = math.sqrt(2)
+            if is_symmetric and not so_idx[0] == so_idx[1]:
+                factor = kelvin_coefficient
                 tensor[so_idx[::-1]] = (1.0/factor)*tensor_mf[mf_idx]
             tensor[so_idx] = (1.0/factor)*tensor_mf[mf_idx]
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
@@ -435,12 +438,14 @@ def get_tensor_from_mf(tensor_mf, n_dim, comp_order, is_kelvin_notation=True,
             mf_idx = tuple(mf_indexes[i])
             fo_idx = tuple(fo_indexes[i])
             factor = 1.0
-            if is_kelvin_notation and not (fo_idx[0] == fo_idx[1]
+            if is_symmetric and not (fo_idx[0] == fo_idx[1]
                                            and fo_idx[2] == fo_idx[3]):
                 factor = \
-                    factor*math.sqrt(2) if fo_idx[0] != fo_idx[1] else factor
+                    factor*kelvin_coefficient \
+                    if fo_idx[0] != fo_idx[1] else factor
                 factor = \
-                    factor*math.sqrt(2) if fo_idx[2] != fo_idx[3] else factor
+                    factor*kelvin_coefficient \
+                    if fo_idx[2] != fo_idx[3] else factor
                 if fo_idx[0] != fo_idx[1] and fo_idx[2] != fo_idx[3]:
                     tensor[tuple(fo_idx[1::-1]+fo_idx[2:])] = \
                         (1.0/factor)*tensor_mf[mf_idx]
-- 
2.43.0


From 1db78876307a5cff68def8066eea8d43b496bdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:54 +0000
Subject: [PATCH 22/78] fix: count the initial plastic strain of the
 Nadai-Ludwik law once

---
 .../simulators/fetorch/material/models/standard/hardening.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/hardening.py b/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
index 62aec5c..21bd989 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
@@ -367,7 +367,7 @@ class NadaiLudwikIHL(IsotropicHardeningLaw):
                                f'strain but got {acc_p_strain}.')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Enforce non-negative accumulate plastic strain
-        acc_p_strain = torch.relu(acc_p_strain) + ep0
+        acc_p_strain = torch.relu(acc_p_strain)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute yield stress
         yield_stress = yield_stress_init + a*((acc_p_strain + ep0)**b)
-- 
2.43.0


From a8db51e4ffbf92d0605236397992e6d44a7f3ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:05 +0000
Subject: [PATCH 23/78] fix: handle hydrostatic and pure shear stress in the
 Lou model

---
 .../fetorch/material/models/standard/lou.py   | 34 +++++++++----------
 .../fetorch/material/models/vmap/lou.py       | 34 +++++++++----------
 2 files changed, 34 insertions(+), 34 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/lou.py b/src/hookeai/simulators/fetorch/material/models/standard/lou.py
index 4127a6e..95952c4 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/lou.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/lou.py
@@ -30,7 +30,7 @@ from simulators.fetorch.math.matrixops import get_problem_type_parameters, \
     vget_tensor_mf, vget_tensor_from_mf, vget_state_3Dmf_from_2Dmf, \
     vget_state_2Dmf_from_3Dmf
 from simulators.fetorch.math.tensorops import get_id_operators, dyad22_1, \
-    ddot42_1, ddot24_1, ddot22_1, ddot44_1, fo_dinv_sym
+    dyad22_2, dyad22_3, ddot42_1, ddot24_1, ddot22_1, ddot44_1
 from utilities.type_conversion import convert_dict_to_tensor, \
     convert_tensor_to_float64, convert_dict_to_float64, \
     convert_dict_to_float32
@@ -844,10 +844,15 @@ class LouZhangYoon(ConstitutiveModel):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute first invariant of deviatoric stress tensor
         j1 = i1
+        # Compute deviatoric stress tensor
+        dev_stress = \
+            stress - (1/3)*i1*torch.eye(3, dtype=stress.dtype,
+                                        device=stress.device)
+        dev_stress_sq = torch.matmul(dev_stress, dev_stress)
         # Compute second invariant of deviatoric stress tensor
-        j2 = (1/3)*(i1**2) - i2
+        j2 = 0.5*torch.trace(dev_stress_sq)
         # Compute third invariant of deviatoric stress tensor
-        j3 = (2/27)*(i1**3) - (1/3)*i1*i2 + i3
+        j3 = (1/3)*torch.trace(torch.matmul(dev_stress_sq, dev_stress))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         return i1, i2, i3, j1, j2, j3
     # -------------------------------------------------------------------------
@@ -897,28 +902,23 @@ class LouZhangYoon(ConstitutiveModel):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute deviatoric stress tensor
         dev_stress = ddot42_1(fodevprojsym, stress)
-        # Compute determinant of deviatoric stress tensor
-        dev_stress_det = torch.det(dev_stress)
-        # Compute inverse of deviatoric stress tensor
-        dev_stress_inv = torch.inverse(dev_stress)
-        # Compute derivative of inverse of deviatoric strss tensor w.r.t itself
-        ddsinv_ddsinv = fo_dinv_sym(dev_stress_inv)
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Compute auxiliary term
-        w6 = ddot24_1(dev_stress_inv, fodevprojsym)
-        # Compute auxiliary term derivative
-        dw6_dstress = ddot44_1(ddot44_1(fodevprojsym, ddsinv_ddsinv),
-                               fodevprojsym)
+        # Compute derivative of square of deviatoric stress tensor w.r.t. itself
+        ddssq_dds = 0.5*(dyad22_2(dev_stress, soid)
+                         + dyad22_3(dev_stress, soid)
+                         + dyad22_2(soid, dev_stress)
+                         + dyad22_3(soid, dev_stress))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute stress invariants
         i1, i2, i3, j1, j2, j3 = self.get_stress_invariants(stress)
         # Compute derivatives w.r.t. stress
         di1_dstress = soid
         dj2_dstress = dev_stress
-        dj3_dstress = dev_stress_det*w6
+        dj3_dstress = ddot42_1(fodevprojsym,
+                               torch.matmul(dev_stress, dev_stress))
         # Compute second-order derivatives w.r.t. stress
         d2j2_dstress2 = fodevprojsym
-        d2j3_dstress2 = dyad22_1(w6, dj3_dstress) + dev_stress_det*dw6_dstress
+        d2j3_dstress2 = ddot44_1(ddot44_1(fodevprojsym, ddssq_dds),
+                                 fodevprojsym)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         return i1, i2, i3, j1, j2, j3, di1_dstress, dj2_dstress, dj3_dstress, \
             d2j2_dstress2, d2j3_dstress2
diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/lou.py b/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
index d7f3dcd..ddc578c 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
@@ -51,7 +51,7 @@ from simulators.fetorch.math.matrixops import get_problem_type_parameters, \
     vget_tensor_mf, vget_tensor_from_mf, vget_state_3Dmf_from_2Dmf, \
     vget_state_2Dmf_from_3Dmf
 from simulators.fetorch.math.tensorops import get_id_operators, dyad22_1, \
-    ddot42_1, ddot24_1, ddot22_1, ddot44_1, fo_dinv_sym
+    dyad22_2, dyad22_3, ddot42_1, ddot24_1, ddot22_1, ddot44_1
 from utilities.type_conversion import convert_dict_to_tensor, \
     convert_tensor_to_float64, convert_dict_to_float64, \
     convert_dict_to_float32
@@ -633,10 +633,15 @@ class LouZhangYoonVMAP(ConstitutiveModel):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute first invariant of deviatoric stress tensor
         j1 = i1
+        # Compute deviatoric stress tensor
+        dev_stress = \
+            stress - (1/3)*i1*torch.eye(3, dtype=stress.dtype,
+                                        device=stress.device)
+        dev_stress_sq = torch.matmul(dev_stress, dev_stress)
         # Compute second invariant of deviatoric stress tensor
-        j2 = (1/3)*(i1**2) - i2
+        j2 = 0.5*torch.trace(dev_stress_sq)
         # Compute third invariant of deviatoric stress tensor
-        j3 = (2/27)*(i1**3) - (1/3)*i1*i2 + i3
+        j3 = (1/3)*torch.trace(torch.matmul(dev_stress_sq, dev_stress))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         return i1, i2, i3, j1, j2, j3
     # -------------------------------------------------------------------------
@@ -690,28 +695,23 @@ class LouZhangYoonVMAP(ConstitutiveModel):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute deviatoric stress tensor
         dev_stress = ddot42_1(fodevprojsym, stress)
-        # Compute determinant of deviatoric stress tensor
-        dev_stress_det = torch.det(dev_stress)
-        # Compute inverse of deviatoric stress tensor
-        dev_stress_inv = torch.inverse(dev_stress)
-        # Compute derivative of inverse of deviatoric strss tensor w.r.t itself
-        ddsinv_ddsinv = fo_dinv_sym(dev_stress_inv)
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Compute auxiliary term
-        w6 = ddot24_1(dev_stress_inv, fodevprojsym)
-        # Compute auxiliary term derivative
-        dw6_dstress = ddot44_1(ddot44_1(fodevprojsym, ddsinv_ddsinv),
-                               fodevprojsym)
+        # Compute derivative of square of deviatoric stress tensor w.r.t. itself
+        ddssq_dds = 0.5*(dyad22_2(dev_stress, soid)
+                         + dyad22_3(dev_stress, soid)
+                         + dyad22_2(soid, dev_stress)
+                         + dyad22_3(soid, dev_stress))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute stress invariants
         i1, i2, i3, j1, j2, j3 = cls.get_stress_invariants(stress)
         # Compute derivatives w.r.t. stress
         di1_dstress = soid
         dj2_dstress = dev_stress
-        dj3_dstress = dev_stress_det*w6
+        dj3_dstress = ddot42_1(fodevprojsym,
+                               torch.matmul(dev_stress, dev_stress))
         # Compute second-order derivatives w.r.t. stress
         d2j2_dstress2 = fodevprojsym
-        d2j3_dstress2 = dyad22_1(w6, dj3_dstress) + dev_stress_det*dw6_dstress
+        d2j3_dstress2 = ddot44_1(ddot44_1(fodevprojsym, ddssq_dds),
+                                 fodevprojsym)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         return i1, i2, i3, j1, j2, j3, di1_dstress, dj2_dstress, dj3_dstress, \
             d2j2_dstress2, d2j3_dstress2
-- 
2.43.0


From 5b339160696c74716d22808a017242f916b252a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:15 +0000
Subject: [PATCH 24/78] fix: move the back stress consistently with the mixed
 hardening return mapping

---
 .../fetorch/material/models/standard/von_mises_mixed.py        | 3 ++-
 .../simulators/fetorch/material/models/vmap/von_mises_mixed.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py b/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py
index 6991d07..5f49d8c 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py
@@ -461,7 +461,8 @@ class VonMisesMixed(ConstitutiveModel):
             acc_p_strain = acc_p_strain_old + inc_p_mult
             # Update back-stress
             back_stress_mf = back_stress_old_mf \
-                + (kin_hard_stress - kin_hard_stress_old)*flow_vector_mf
+                + (2.0/3.0)*(kin_hard_stress - kin_hard_stress_old) \
+                    *flow_vector_mf
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Set state variables to NaN if state update fails
             if is_su_fail:
diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
index ea49b0e..fe3b125 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
@@ -711,7 +711,8 @@ class VonMisesMixedVMAP(ConstitutiveModel):
         acc_p_strain = acc_p_strain_old + inc_p_mult
         # Update back-stress
         back_stress_mf = back_stress_old_mf \
-            + (kin_hard_stress - kin_hard_stress_old)*flow_vector_mf
+            + (2.0/3.0)*(kin_hard_stress - kin_hard_stress_old) \
+                *flow_vector_mf
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Build concatenated plastic step output
         plastic_step_output = \
-- 
2.43.0


From 27a3db095b3461be28cac345f500b48c81cf1233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:00 +0000
Subject: [PATCH 25/78] fix: return scalars from the piecewise linear hardening
 law

---
 .../fetorch/material/models/standard/hardening.py           | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/hardening.py b/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
index 21bd989..f81d9db 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
@@ -230,13 +230,15 @@ class PiecewiseLinearIHL(IsotropicHardeningLaw):
         # yield stress associated with the first or last provided points,
         # respectively. Otherwise, perform linear interpolation to compute
         # the yield stress        
-        yield_stress = torch_interp(acc_p_strain, a, b, left=b[0], right=b[-1])
+        yield_stress = torch_interp(acc_p_strain, a, b, left=b[0], right=b[-1]) \
+            .reshape(acc_p_strain.shape)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Get hardening slope
         hard_slope = torch.where(
             acc_p_strain < a[0], 0.0, torch.where(
                 acc_p_strain >= a[-1], 0.0,
-                PiecewiseLinearIHL._hardening_slope(acc_p_strain, a, b)))
+                PiecewiseLinearIHL._hardening_slope(acc_p_strain, a, b))) \
+            .reshape(acc_p_strain.shape)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         return yield_stress, hard_slope
     # -------------------------------------------------------------------------
-- 
2.43.0


From 7cf2e967fa8bc68478844609481fc3459d8ce663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:12 +0000
Subject: [PATCH 26/78] fix: scale the Drucker-Prager tangent with the
 deviatoric trial strain

---
 .../fetorch/material/models/standard/drucker_prager.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py b/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py
index a9846f0..01ccee7 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py
@@ -612,8 +612,8 @@ class DruckerPrager(ConstitutiveModel):
                     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                     # Compute deviatoric elastic trial strain norm divison
                     # factor
-                    if torch.norm(e_trial_strain_mf) > small:
-                        norm_div_factor = 1.0/torch.norm(e_trial_strain_mf)
+                    if torch.norm(dev_trial_e_strain) > small:
+                        norm_div_factor = 1.0/torch.norm(dev_trial_e_strain)
                     else:
                         norm_div_factor = torch.zeros(1, device=self._device)
                     # Compute deviatoric elastic strain unit vector
-- 
2.43.0


From 02692ace5cf740ca48a5ea0e0ba693d541a6c216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:12 +0000
Subject: [PATCH 27/78] fix: include kinematic hardening in the vectorised
 mixed hardening tangent

---
 .../fetorch/material/models/vmap/von_mises_mixed.py           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
index fe3b125..25c8074 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
@@ -522,9 +522,11 @@ class VonMisesMixedVMAP(ConstitutiveModel):
         #
         # Compute plastic consistent tangent modulus
         _, H = hardening_law(hardening_parameters, acc_p_strain)
+        _, kin_hard_slope = kinematic_hardening_law(
+            kinematic_hardening_parameters, acc_p_strain)
         factor_1 = ((inc_p_mult*6.0*G**2)/relative_eq_trial_stress)
         factor_2 = (6.0*G**2)*((inc_p_mult/relative_eq_trial_stress)
-                                - (1.0/(3.0*G + H)))
+                                - (1.0/(3.0*G + kin_hard_slope + H)))
         unit_flow_vector = math.sqrt(2.0/3.0)*vget_tensor_from_mf(
             flow_vector_mf, n_dim, comp_order_sym, device=self._device)
         p_consistent_tangent = e_consistent_tangent \
-- 
2.43.0


From 35b2083985495e0478ae209f34fb02b142a23d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:54 +0000
Subject: [PATCH 28/78] fix: keep converged states apart from trial states
 without copy

---
 src/hookeai/simulators/fetorch/structure/structure_state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/fetorch/structure/structure_state.py b/src/hookeai/simulators/fetorch/structure/structure_state.py
index 1989171..a1b6aaf 100644
--- a/src/hookeai/simulators/fetorch/structure/structure_state.py
+++ b/src/hookeai/simulators/fetorch/structure/structure_state.py
@@ -531,7 +531,7 @@ class StructureMaterialState(torch.nn.Module):
         if is_copy:
             self._elements_state_old = copy.deepcopy(self._elements_state)
         else:
-            self._elements_state_old = self._elements_state
+            self._elements_state_old = dict(self._elements_state)
     # -------------------------------------------------------------------------
     def get_element_model_recurrency(self, element_id):
         """Get element constitutive model recurrent structure.
-- 
2.43.0


From 36b79efb52a1438778a8da6f3a117d63d541b3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:50 +0000
Subject: [PATCH 29/78] fix: concatenate strain state features of vectorised
 models

---
 .../model_architectures/rc_base_model/model/recurrent_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
index 903ac9f..d5f80ac 100644
--- a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
+++ b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
@@ -1519,7 +1519,8 @@ class RecurrentConstitutiveModel(torch.nn.Module):
                             raise RuntimeError('Not implemented.')
                         # Get strain components
                         state_comps = self.vstore_tensor_comps(
-                            strain_comps_order, strain, device=self._device)
+                            strain_comps_order, strain,
+                            device=self._device).reshape(1, n_features)
                     else:
                         # Get generic state variable components
                         state_comps = \
-- 
2.43.0


From 2a6a50a5c94181d2dc8c2caa8fc07e7766beb29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:50 +0000
Subject: [PATCH 30/78] fix: store all settings in the recurrent model
 initialization file

---
 .../model_architectures/rc_base_model/model/recurrent_model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
index d5f80ac..be13c6f 100644
--- a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
+++ b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
@@ -1667,6 +1667,9 @@ class RecurrentConstitutiveModel(torch.nn.Module):
             self._material_model_parameters
         model_init_args['model_directory'] = self.model_directory
         model_init_args['model_name'] = self.model_name
+        model_init_args['is_auto_sync_parameters'] = \
+            self._is_auto_sync_parameters
+        model_init_args['is_check_su_fail'] = self._is_check_su_fail
         model_init_args['state_features_out'] = self._state_features_out
         model_init_args['is_normalized_parameters'] = \
             self.is_normalized_parameters
-- 
2.43.0


From 05b2f8b34359823eecf3f33053a7f3a6c9678297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:00 +0000
Subject: [PATCH 31/78] fix: leave the input of the volumetric/deviatoric
 composition unmodified

---
 .../hybrid_base_model/model/hybridized_layers.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
index 8dca2c3..0f075b8 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
@@ -390,7 +390,7 @@ class VolDevCompositionModel(torch.nn.Module):
         features_in = features_in.view(-1, n_features_in)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Initialize output features (input deviatoric components)
-        features_out = features_in[:, 1:]
+        features_out = features_in[:, 1:].clone()
         # Get volumetric component
         vol_comp = features_in[:, 0]
         # Loop over components
-- 
2.43.0


From b40f1bbd7b2cfad04d6d306d173af910f90cdd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:16 +0000
Subject: [PATCH 32/78] fix: scale random strain paths to comply with both
 bounds

---
 .../strain_paths/random_path.py               | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/hookeai/data_generation/strain_paths/random_path.py b/src/hookeai/data_generation/strain_paths/random_path.py
index 702ca5d..85bc820 100644
--- a/src/hookeai/data_generation/strain_paths/random_path.py
+++ b/src/hookeai/data_generation/strain_paths/random_path.py
@@ -245,21 +245,14 @@ class RandomStrainPathGenerator(StrainPathGenerator):
                 max_strain = np.max(strain_comp_hist)
                 # Check if bounds are satisfied
                 if min_strain < lbound or max_strain > ubound:
-                    # Compute maximum deviation to lower bound
+                    # Compute linear scale factor (comply with both bounds)
+                    scale_factor = 1.0
                     if min_strain < lbound:
-                        l_dist = np.abs(lbound - min_strain)
-                    else:
-                        l_dist = 0
-                    # Compute maximum deviation to upper bound
+                        scale_factor = min(scale_factor,
+                                           np.abs(lbound/min_strain))
                     if max_strain > ubound:
-                        u_dist = np.abs(ubound - max_strain)
-                    else:
-                        u_dist = 0
-                    # Compute linear scale factor
-                    if l_dist > u_dist:
-                        scale_factor = np.abs(lbound/min_strain)
-                    else:
-                        scale_factor = np.abs(ubound/max_strain)
+                        scale_factor = min(scale_factor,
+                                           np.abs(ubound/max_strain))
                     # Scale strain component history
                     strain_comp_hist = scale_factor*strain_comp_hist
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From 470254b9c082b505e5c4c3ce23b5cab6fe9d73c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:29 +0000
Subject: [PATCH 33/78] fix: keep strain paths finite when there is no strain
 increment

---
 .../data_generation/strain_paths/proportional_path.py     | 8 ++++++--
 src/hookeai/data_generation/strain_paths/random_path.py   | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/data_generation/strain_paths/proportional_path.py b/src/hookeai/data_generation/strain_paths/proportional_path.py
index ef542a4..a63d9c8 100644
--- a/src/hookeai/data_generation/strain_paths/proportional_path.py
+++ b/src/hookeai/data_generation/strain_paths/proportional_path.py
@@ -190,8 +190,12 @@ class ProportionalStrainPathGenerator(StrainPathGenerator):
                     inc_strain = strain - strain_old
                 else:
                     raise RuntimeError('Not implemented.')
-                # Compute strain increment unit vector
-                inc_strain_direction = inc_strain/np.linalg.norm(inc_strain)
+                # Compute strain increment unit vector (null if there is no
+                # strain increment)
+                inc_strain_direction = inc_strain
+                if np.linalg.norm(inc_strain) > 0.0:
+                    inc_strain_direction = \
+                        inc_strain/np.linalg.norm(inc_strain)
                 # Enforce strain increment norm
                 strain = strain_old + inc_strain_norm*inc_strain_direction
                 # Update strain path
diff --git a/src/hookeai/data_generation/strain_paths/random_path.py b/src/hookeai/data_generation/strain_paths/random_path.py
index 85bc820..8741e8b 100644
--- a/src/hookeai/data_generation/strain_paths/random_path.py
+++ b/src/hookeai/data_generation/strain_paths/random_path.py
@@ -282,8 +282,12 @@ class RandomStrainPathGenerator(StrainPathGenerator):
                     inc_strain = strain - strain_old
                 else:
                     raise RuntimeError('Not implemented.')
-                # Compute strain increment unit vector
-                inc_strain_direction = inc_strain/np.linalg.norm(inc_strain)
+                # Compute strain increment unit vector (null if there is no
+                # strain increment)
+                inc_strain_direction = inc_strain
+                if np.linalg.norm(inc_strain) > 0.0:
+                    inc_strain_direction = \
+                        inc_strain/np.linalg.norm(inc_strain)
                 # Enforce strain increment norm
                 strain = strain_old + inc_strain_norm*inc_strain_direction
                 # Update strain path
-- 
2.43.0


From 39cddb572df09e3da5f9057f246f684cb6a2fd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:58 +0000
Subject: [PATCH 34/78] fix: denoise tensors of single and double precision

---
 src/hookeai/utilities/data_denoisers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/utilities/data_denoisers.py b/src/hookeai/utilities/data_denoisers.py
index b2ffa81..c186d2c 100644
--- a/src/hookeai/utilities/data_denoisers.py
+++ b/src/hookeai/utilities/data_denoisers.py
@@ -124,7 +124,8 @@ class Denoiser:
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Set convolution kernel of shape (n_features, 1, window_size)
         # (set independent kernel for each feature)
-        kernel = torch.ones(n_features, 1, window_size)/window_size
+        kernel = torch.ones(n_features, 1, window_size,
+                            dtype=tensor.dtype)/window_size
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute moving average (independent convolution of each feature)
         denoised_tensor = \
@@ -194,7 +195,8 @@ class Denoiser:
                            for _ in range(n_features)])
         # Set convolution kernel of shape (n_features, 1, window_size)
         # (set independent kernel for each feature)
-        kernel = torch.tensor(coeffs).view(n_features, 1, window_size)
+        kernel = torch.tensor(coeffs, dtype=tensor.dtype).view(
+            n_features, 1, window_size)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute moving average (independent convolution of each feature)
         denoised_tensor = \
-- 
2.43.0


From fa119b72deb69cb1ec1b56ac7d551ffead592324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:07 +0000
Subject: [PATCH 35/78] fix: do not follow strain increments at round-off level

---
 .../data_generation/strain_paths/proportional_path.py      | 7 ++++---
 src/hookeai/data_generation/strain_paths/random_path.py    | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/hookeai/data_generation/strain_paths/proportional_path.py b/src/hookeai/data_generation/strain_paths/proportional_path.py
index a63d9c8..bdc3ea2 100644
--- a/src/hookeai/data_generation/strain_paths/proportional_path.py
+++ b/src/hookeai/data_generation/strain_paths/proportional_path.py
@@ -191,9 +191,10 @@ class ProportionalStrainPathGenerator(StrainPathGenerator):
                 else:
                     raise RuntimeError('Not implemented.')
                 # Compute strain increment unit vector (null if there is no
-                # strain increment)
-                inc_strain_direction = inc_strain
-                if np.linalg.norm(inc_strain) > 0.0:
+                # strain increment besides round-off)
+                inc_strain_direction = np.zeros_like(inc_strain)
+                if (np.linalg.norm(inc_strain)
+                        > 1e-10*np.linalg.norm(strain_old)):
                     inc_strain_direction = \
                         inc_strain/np.linalg.norm(inc_strain)
                 # Enforce strain increment norm
diff --git a/src/hookeai/data_generation/strain_paths/random_path.py b/src/hookeai/data_generation/strain_paths/random_path.py
index 8741e8b..0f8d798 100644
--- a/src/hookeai/data_generation/strain_paths/random_path.py
+++ b/src/hookeai/data_generation/strain_paths/random_path.py
@@ -283,9 +283,10 @@ class RandomStrainPathGenerator(StrainPathGenerator):
                 else:
                     raise RuntimeError('Not implemented.')
                 # Compute strain increment unit vector (null if there is no
-                # strain increment)
-                inc_strain_direction = inc_strain
-                if np.linalg.norm(inc_strain) > 0.0:
+                # strain increment besides round-off)
+                inc_strain_direction = np.zeros_like(inc_strain)
+                if (np.linalg.norm(inc_strain)
+                        > 1e-10*np.linalg.norm(strain_old)):
                     inc_strain_direction = \
                         inc_strain/np.linalg.norm(inc_strain)
                 # Enforce strain increment norm
-- 
2.43.0


From 0db248d2e56df68a7bb94d72122ed981d8deda96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:41 +0000
Subject: [PATCH 36/78] fix: generate patches without rigid body motions

---
 src/hookeai/data_generation/spdg/patch_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/data_generation/spdg/patch_generator.py b/src/hookeai/data_generation/spdg/patch_generator.py
index 43326a3..e38d79a 100644
--- a/src/hookeai/data_generation/spdg/patch_generator.py
+++ b/src/hookeai/data_generation/spdg/patch_generator.py
@@ -407,7 +407,7 @@ class FiniteElementPatchGenerator:
                     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                     # Rigid body rotation (around deformed configuration
                     # centroid)
-                    if centroid_def is not None and rotation is not None:
+                    if centroid_def is not None and rbm_rotation is not None:
                         # Build centroid tile array (local)
                         centroid_def_tile = np.tile(centroid_def, (n_nodes, 1))
                         # Superimpose rigid body rotation around centroid
@@ -417,7 +417,7 @@ class FiniteElementPatchGenerator:
                                 coords_array - centroid_def_tile, rbm_rotation)
                     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                     # Rigid body translation
-                    if translation is not None:
+                    if rbm_translation is not None:
                         # Build translation tile array (local)
                         translation_tile = \
                             np.tile(rbm_translation, (n_nodes, 1))
-- 
2.43.0


From 1255239d16411a7f9912ab2d1381847e06c70aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:41 +0000
Subject: [PATCH 37/78] fix: keep fixed patch corners of straight edges at rest

---
 src/hookeai/data_generation/spdg/patch_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/data_generation/spdg/patch_generator.py b/src/hookeai/data_generation/spdg/patch_generator.py
index e38d79a..f568824 100644
--- a/src/hookeai/data_generation/spdg/patch_generator.py
+++ b/src/hookeai/data_generation/spdg/patch_generator.py
@@ -947,7 +947,7 @@ class FiniteElementPatchGenerator:
                             # Check displacement range intersection
                             min_max = np.min((range_l[1], range_r[1]))
                             max_min = np.max((range_l[0], range_r[0]))
-                            if min_max > max_min:
+                            if min_max >= max_min:
                                 # If non-null intersection range, then sample
                                 # random displacement along dimension on that
                                 # range: uniform distribution
-- 
2.43.0


From fcfb94c0f6b2370e7f1eb66f8f2b398719fcffdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:50 +0000
Subject: [PATCH 38/78] fix: interpolate patch face displacements between
 opposite edges

---
 src/hookeai/data_generation/spdg/patch_generator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/data_generation/spdg/patch_generator.py b/src/hookeai/data_generation/spdg/patch_generator.py
index f568824..9d09c0f 100644
--- a/src/hookeai/data_generation/spdg/patch_generator.py
+++ b/src/hookeai/data_generation/spdg/patch_generator.py
@@ -1970,15 +1970,15 @@ class FiniteElementPatchGenerator:
                             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                             # Interpolate displacement along first dimension
                             disp_1 = (
-                                (1.0 - i/n_node_1)*mesh_boundary_nodes_disps[
+                                (1.0 - i/(n_node_1 - 1))*mesh_boundary_nodes_disps[
                                     str(face_nodes[0, j])]
-                                + (i/n_node_1)*mesh_boundary_nodes_disps[
+                                + (i/(n_node_1 - 1))*mesh_boundary_nodes_disps[
                                     str(face_nodes[-1, j])])
                             # Interpolate displacement along second dimension
                             disp_2 = (
-                                (1.0 - j/n_node_2)*mesh_boundary_nodes_disps[
+                                (1.0 - j/(n_node_2 - 1))*mesh_boundary_nodes_disps[
                                     str(face_nodes[i, 0])]
-                                + (j/n_node_2)*mesh_boundary_nodes_disps[
+                                + (j/(n_node_2 - 1))*mesh_boundary_nodes_disps[
                                     str(face_nodes[i, -1])])
                             # Compute node displacement
                             disp = np.mean((disp_1, disp_2), axis=0)
-- 
2.43.0


From f41b10ba33b5049aad5b29707d2f2901afb78748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:45 +0000
Subject: [PATCH 39/78] fix: scale features of normalized models in
 element-wise evaluation

---
 .../model/material_discovery.py                   | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 0cdf45e..d240af7 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -1411,10 +1411,23 @@ class MaterialModelFinder(torch.nn.Module):
             else:
                 raise RuntimeError('Not implemented.')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # Normalize input features tensor
+        features_in_model = features_in
+        if self.check_model_in_normalized(constitutive_model):
+            # Normalize input features
+            features_in_model = data_scaler_transform(
+                constitutive_model, features_in, 'features_in',
+                mode='normalize')
         # Compute output features
-        features_out = constitutive_model(features_in)
+        features_out = constitutive_model(features_in_model)
         # Extract output features
         features_out = self.features_out_extractor(features_out)
+        # Denormalize output features tensor
+        if self.check_model_out_normalized(constitutive_model):
+            # Denormalize output features
+            features_out = data_scaler_transform(
+                constitutive_model, features_out, 'features_out',
+                mode='denormalize')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Loop over discrete time
         for time_idx in range(n_time):
-- 
2.43.0


From c7b02bbd628704ad8508ab32734f4ed3ee74d141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:45 +0000
Subject: [PATCH 40/78] fix: store local strain paths without normalization

---
 .../material_model_finder/model/material_discovery.py        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index d240af7..c5cf56c 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -2514,13 +2514,14 @@ class MaterialModelFinder(torch.nn.Module):
         features_in = torch.stack(features_in_data, dim=0)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Normalize input features tensor
+        features_in_model = features_in
         if self.check_model_in_normalized(constitutive_model):
             # Normalize input features
-            features_in = data_scaler_transform(constitutive_model,
+            features_in_model = data_scaler_transform(constitutive_model,
                 features_in, 'features_in', mode='normalize')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute output features
-        features_out = constitutive_model(features_in)
+        features_out = constitutive_model(features_in_model)
         # Extract output features
         features_out = self.features_out_extractor(features_out)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From 062f5f9020cc22697353dccbd596587b7b22d48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:45 +0000
Subject: [PATCH 41/78] fix: refuse vectorized evaluation with different
 material models

---
 src/hookeai/material_model_finder/model/material_discovery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index c5cf56c..49f6fac 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -1727,7 +1727,7 @@ class MaterialModelFinder(torch.nn.Module):
         # Get elements material
         elements_material = specimen_material_state.get_elements_material()
         # Get element constitutive material model
-        if specimen_material_state.get_n_element_material_type() > 1:
+        if len({id(x) for x in elements_material.values()}) > 1:
             raise RuntimeError('Vectorized forward propagation requires that '
                                'all the elements share the same material.')  
         else:
-- 
2.43.0


From 49c8c5d499c8cccdc96e9958af781b5e6591939f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:46 +0000
Subject: [PATCH 42/78] fix: balance Dirichlet sets when all degrees of freedom
 are constrained

---
 .../model/material_discovery.py                      | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 49f6fac..71d8350 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -2756,8 +2756,10 @@ class MaterialModelFinder(torch.nn.Module):
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Flatten mesh sets
             dirichlet_bc_mesh_flat = dirichlet_bc_mesh.view(-1).long()
-            # Get unique set labels
-            unique_labels = torch.unique(dirichlet_bc_mesh_flat)
+            # Get unique set labels (including non-Dirichlet)
+            unique_labels = torch.unique(torch.cat(
+                (dirichlet_bc_mesh_flat.new_zeros(1),
+                 dirichlet_bc_mesh_flat)))
             # Set contiguous set labels
             dense_indices = \
                 torch.bucketize(dirichlet_bc_mesh_flat, unique_labels)
@@ -2926,8 +2928,10 @@ class MaterialModelFinder(torch.nn.Module):
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Flatten mesh sets
                 dirichlet_bc_mesh_flat = dirichlet_bc_mesh.view(-1).long()
-                # Get unique set labels
-                unique_labels = torch.unique(dirichlet_bc_mesh_flat)
+                # Get unique set labels (including non-Dirichlet)
+                unique_labels = torch.unique(torch.cat(
+                    (dirichlet_bc_mesh_flat.new_zeros(1),
+                     dirichlet_bc_mesh_flat)))
                 # Set contiguous set labels
                 dense_indices = \
                     torch.bucketize(dirichlet_bc_mesh_flat, unique_labels)
-- 
2.43.0


From fbecceea7001e168993c9f6112d3f0420062a9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:46 +0000
Subject: [PATCH 43/78] fix: normalize forces in the loss components history

---
 .../model/material_discovery.py               | 29 +++++++++----------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 71d8350..ecef911 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -2876,21 +2876,6 @@ class MaterialModelFinder(torch.nn.Module):
         # Get history length
         n_time = internal_forces_mesh_hist.shape[2]
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Normalize forces
-        if self._is_force_normalization:
-            # Normalize internal forces
-            internal_forces_mesh = data_scaler_transform(
-                self, internal_forces_mesh_hist, features_type='forces',
-                mode='normalize')
-            # Normalize external forces
-            external_forces_mesh = data_scaler_transform(
-                self, external_forces_mesh_hist, features_type='forces',
-                mode='normalize')
-            # Normalize reaction forces
-            reaction_forces_mesh = data_scaler_transform(
-                self, reaction_forces_mesh_hist, features_type='forces',
-                mode='normalize')
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Initialize force equilibrium loss components history
         force_equilibrium_loss_components_hist = \
             torch.zeros(1 + n_loss_comp, n_time,
@@ -2906,6 +2891,20 @@ class MaterialModelFinder(torch.nn.Module):
             reaction_forces_mesh = reaction_forces_mesh_hist[:, :, i]
             # Get Dirichlet boundary constraints at time step
             dirichlet_bc_mesh = dirichlet_bc_mesh_hist[:, :, i]
+            # Normalize forces
+            if self._is_force_normalization:
+                # Normalize internal forces
+                internal_forces_mesh = data_scaler_transform(
+                    self, internal_forces_mesh, features_type='forces',
+                    mode='normalize')
+                # Normalize external forces
+                external_forces_mesh = data_scaler_transform(
+                    self, external_forces_mesh, features_type='forces',
+                    mode='normalize')
+                # Normalize reaction forces
+                reaction_forces_mesh = data_scaler_transform(
+                    self, reaction_forces_mesh, features_type='forces',
+                    mode='normalize')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Compute force equilibrium loss components
             if self._force_equilibrium_loss_type == 'pointwise':
-- 
2.43.0


From 443b607c9bf58a473ea4e61e4f42d826ae790268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:46 +0000
Subject: [PATCH 44/78] fix: balance normalized reaction forces

---
 .../model/material_discovery.py               | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index ecef911..8fca64c 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -1499,6 +1499,12 @@ class MaterialModelFinder(torch.nn.Module):
             # Normalize reaction forces
             reaction_forces_mesh = data_scaler_transform(self,
                 reaction_forces_mesh, features_type='forces', mode='normalize')
+            # Remove offset from normalized reaction forces (the offset of the
+            # internal forces is balanced by that of the external forces)
+            reaction_forces_mesh = reaction_forces_mesh \
+                - data_scaler_transform(
+                    self, torch.zeros_like(reaction_forces_mesh),
+                    features_type='forces', mode='normalize')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Get number of nodes of finite element mesh
         n_node_mesh = internal_forces_mesh.shape[0]
@@ -2739,6 +2745,12 @@ class MaterialModelFinder(torch.nn.Module):
             # Normalize reaction forces
             reaction_forces_mesh = data_scaler_transform(self,
                 reaction_forces_mesh, features_type='forces', mode='normalize')
+            # Remove offset from normalized reaction forces (the offset of the
+            # internal forces is balanced by that of the external forces)
+            reaction_forces_mesh = reaction_forces_mesh \
+                - data_scaler_transform(
+                    self, torch.zeros_like(reaction_forces_mesh),
+                    features_type='forces', mode='normalize')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute force equilibrium loss
         if self._force_equilibrium_loss_type == 'pointwise':
@@ -2905,6 +2917,13 @@ class MaterialModelFinder(torch.nn.Module):
                 reaction_forces_mesh = data_scaler_transform(
                     self, reaction_forces_mesh, features_type='forces',
                     mode='normalize')
+                # Remove offset from normalized reaction forces (the offset of
+                # the internal forces is balanced by that of the external
+                # forces)
+                reaction_forces_mesh = reaction_forces_mesh \
+                    - data_scaler_transform(
+                        self, torch.zeros_like(reaction_forces_mesh),
+                        features_type='forces', mode='normalize')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Compute force equilibrium loss components
             if self._force_equilibrium_loss_type == 'pointwise':
-- 
2.43.0


From 64841e5ae1ff2fc5047ad72cbf037ea49320940b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:30 +0000
Subject: [PATCH 45/78] fix: import the response data set plots of the noisy
 data set script

---
 .../user_scripts/synthetic_data/gen_noisy_response_dataset.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
index ab06980..d5d3652 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
@@ -33,7 +33,8 @@ from time_series_data.time_dataset import TimeSeriesDatasetInMemory, \
 from data_generation.strain_paths.random_path import RandomStrainPathGenerator
 from data_generation.strain_paths.proportional_path import \
     ProportionalStrainPathGenerator
-from synthetic_data.gen_response_dataset import generate_dataset_plots
+from user_scripts.synthetic_data.gen_response_dataset import \
+    generate_dataset_plots
 from simulators.fetorch.math.matrixops import get_problem_type_parameters, \
     get_tensor_from_mf
 from simulators.fetorch.material.material_su import material_state_update
-- 
2.43.0


From 8c37ac6777c7a6086ab57cf11bc45787de94ac80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:48 +0000
Subject: [PATCH 46/78] fix: give the base name of a stored data set read from
 .csv files

---
 .../user_scripts/synthetic_data/gen_response_dataset.py        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
index 4c38d00..cdee637 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
@@ -577,7 +577,8 @@ class MaterialResponseDatasetGenerator():
     def gen_response_dataset_from_csv(self, response_file_paths,
                                       is_in_memory_dataset=True,
                                       dataset_directory=None, save_dir=None,
-                                      is_save_fig=False, is_verbose=False):
+                                      is_save_fig=False, is_verbose=False,
+                                      dataset_basename=None):
         """Generate strain-stress path data set from set of .csv files.
         
         Parameters
-- 
2.43.0


From 8c121cec0c8ac898ed4858037cb7c1a84226abe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:07 +0000
Subject: [PATCH 47/78] fix: weight heteroscedastic noise with the strain norm
 of each path

---
 .../synthetic_data/gen_noisy_response_dataset.py   | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
index d5d3652..7e9bc03 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
@@ -403,16 +403,18 @@ class NoisyMaterialResponseDatasetGenerator:
                 if noise_variability == 'heteroscedastic':
                     # Compute noiseless strain norm path
                     noiseless_strain_norm_path = \
-                        dataset_generator.compute_norm_path(
-                            noiseless_strain_path, n_dim, strain_comps_order,
-                            is_symmetric=strain_formulation == 'infinitesimal')
+                        self.compute_norm_path(
+                            noiseless_strain_path, self._n_dim,
+                            strain_comps_order, is_symmetric=
+                            self._strain_formulation == 'infinitesimal')
                     # Set heteroscedastic normalization
                     if heteroscedastic_normalizer is None:
-                        heteroscedastic_normalizer = \
-                            np.max(noiseless_strain_norm_path)
+                        path_normalizer = np.max(noiseless_strain_norm_path)
+                    else:
+                        path_normalizer = heteroscedastic_normalizer
                     # Compute heteroscedastic noise weights
                     heteroscedastic_weights = \
-                        noiseless_strain_norm_path/heteroscedastic_normalizer
+                        noiseless_strain_norm_path/path_normalizer
                 else:
                     heteroscedastic_weights = None
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From a14dd8154657462163df72539c2e2051fd5aaf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:07 +0000
Subject: [PATCH 48/78] fix: ignore unavailable state variables in noisy data
 sets

---
 .../user_scripts/synthetic_data/gen_noisy_response_dataset.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
index 7e9bc03..763117e 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
@@ -609,7 +609,7 @@ class NoisyMaterialResponseDatasetGenerator:
             for state_var in state_features.keys():
                 # Skip if state variable is not available
                 if state_var not in state_variables.keys():
-                    state_path.pop(state_var)
+                    state_path.pop(state_var, None)
                     continue
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Store state variable
-- 
2.43.0


From d3c23bbced9acdf03086e77af3f212708e057707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:07 +0000
Subject: [PATCH 49/78] fix: keep the initial strain of denoised paths with
 normalized noise

---
 .../synthetic_data/gen_noisy_response_dataset.py            | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
index 763117e..3ec8d80 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
@@ -428,10 +428,12 @@ class NoisyMaterialResponseDatasetGenerator:
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Normalize strain path
                 if strain_data_scaler:
-                    noiseless_strain_path = strain_data_scaler.transform(
+                    strain_path = strain_data_scaler.transform(
                         torch.tensor(noiseless_strain_path)).numpy()
+                else:
+                    strain_path = noiseless_strain_path
                 # Set noisy strain path
-                strain_path = noiseless_strain_path + strain_noise_path
+                strain_path = strain_path + strain_noise_path
                 # Denormalize strain path
                 if strain_data_scaler:
                     strain_path = strain_data_scaler.inverse_transform(
-- 
2.43.0


From e891ca2f05f39e7f54a58877c306a08b1e25d97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:19 +0000
Subject: [PATCH 50/78] fix: balance Dirichlet sets of specimen data read from
 files

---
 .../material_model_finder/model/material_discovery.py  | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 8fca64c..035c1b3 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -2764,10 +2764,10 @@ class MaterialModelFinder(torch.nn.Module):
             # Flatten mesh data
             internal_forces_mesh_flat = internal_forces_mesh.view(-1)
             external_forces_mesh_flat = external_forces_mesh.view(-1)
-            reaction_forces_mesh_flat = reaction_forces_mesh.view(-1)
+            reaction_forces_mesh_flat = reaction_forces_mesh.reshape(-1)
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Flatten mesh sets
-            dirichlet_bc_mesh_flat = dirichlet_bc_mesh.view(-1).long()
+            dirichlet_bc_mesh_flat = dirichlet_bc_mesh.reshape(-1).long()
             # Get unique set labels (including non-Dirichlet)
             unique_labels = torch.unique(torch.cat(
                 (dirichlet_bc_mesh_flat.new_zeros(1),
@@ -2942,10 +2942,10 @@ class MaterialModelFinder(torch.nn.Module):
                 # Flatten mesh data
                 internal_forces_mesh_flat = internal_forces_mesh.view(-1)
                 external_forces_mesh_flat = external_forces_mesh.view(-1)
-                reaction_forces_mesh_flat = reaction_forces_mesh.view(-1)
+                reaction_forces_mesh_flat = reaction_forces_mesh.reshape(-1)
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Flatten mesh sets
-                dirichlet_bc_mesh_flat = dirichlet_bc_mesh.view(-1).long()
+                dirichlet_bc_mesh_flat = dirichlet_bc_mesh.reshape(-1).long()
                 # Get unique set labels (including non-Dirichlet)
                 unique_labels = torch.unique(torch.cat(
                     (dirichlet_bc_mesh_flat.new_zeros(1),
@@ -3269,7 +3269,7 @@ class MaterialModelFinder(torch.nn.Module):
         external_forces_mesh_flat = external_forces_mesh.view(-1)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Flatten mesh sets
-        dirichlet_bc_mesh_flat = dirichlet_bc_mesh.view(-1).long()
+        dirichlet_bc_mesh_flat = dirichlet_bc_mesh.reshape(-1).long()
         # Get unique set labels
         unique_labels = torch.unique(dirichlet_bc_mesh_flat)
         # Set contiguous set labels
-- 
2.43.0


From e47d52c3aeb953b274aa858f0c674df40473d77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:25 +0000
Subject: [PATCH 51/78] fix: allow storing only the specimen data or material
 state

---
 .../global_model_update/material_finder/gen_specimen_data.py   | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
index 93d84c3..d8e4b6c 100644
--- a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
+++ b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
@@ -104,6 +104,9 @@ def gen_specimen_dataset(specimen_name, specimen_raw_dir, specimen_inp_path,
     specimen_material_state_path : str
         Path of file containing the FETorch specimen material state.
     """
+    # Initialize files paths (None if not stored)
+    specimen_data_path = None
+    specimen_material_state_path = None
     # Initialize specimen numerical data
     specimen_data = SpecimenNumericalData()
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From 59b33427d24d6961f73355dbaa30fa52f3ed513a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:32 +0000
Subject: [PATCH 52/78] fix: write negative prescribed displacements of
 specimens

---
 .../simulators/links/utilities/links_specimen_dirichlet.py    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py b/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
index 0d90783..ab29d44 100644
--- a/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
+++ b/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
@@ -239,7 +239,7 @@ def write_links_dirichlet_bc_file(dbc_file_dir, dbc_array,
         node_dbc_code = \
             ''.join(['{:>1d}'.format(int(x)) for x in dbc_array[i, 1:4]])
         node_dbc_disps = \
-            ''.join(['{:11.4e}'.format(x) for x in dbc_array[i, 4:7]])
+            ' '.join(['{:11.4e}'.format(x) for x in dbc_array[i, 4:7]])
         # Append node to file data
         write_lines += \
             [f'  {node_label} {node_dbc_code} {node_dbc_disps}' + '\n']
@@ -255,7 +255,7 @@ def write_links_dirichlet_bc_file(dbc_file_dir, dbc_array,
         # Loop over Dirichlet boundary conditions nodes
         for i in range(n_node_dbc):
             # Collect node label if non-null Dirichlet boundary condition
-            if np.any(dbc_array[i, 4:7] > small):
+            if np.any(np.abs(dbc_array[i, 4:7]) > small):
                 reaction_nodes.append(int(dbc_array[i, 0]))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Append reaction node group to file data
-- 
2.43.0


From deda54e00b5b7df5b21c1aefedf544142977550e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:42 +0000
Subject: [PATCH 53/78] fix: store the pruning testing data set in its own
 directory

---
 src/hookeai/miscellaneous/pruning/pruning_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/miscellaneous/pruning/pruning_dataset.py b/src/hookeai/miscellaneous/pruning/pruning_dataset.py
index 9fe8312..47b269f 100644
--- a/src/hookeai/miscellaneous/pruning/pruning_dataset.py
+++ b/src/hookeai/miscellaneous/pruning/pruning_dataset.py
@@ -844,7 +844,7 @@ def set_pruning_step_dir(prun_datasets_dir, train_dataset, val_dataset,
     make_directory(test_dataset_dir, is_overwrite=True)
     # Save pruning testing data set
     test_dataset_file_path = \
-        save_dataset(test_dataset, dataset_basename, val_dataset_dir,
+        save_dataset(test_dataset, dataset_basename, test_dataset_dir,
                      is_append_n_sample=True)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set pruning predictions directory
-- 
2.43.0


From 0a3d45547dfa7abf4d854b74d5029be40f87d5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:42 +0000
Subject: [PATCH 54/78] fix: stop pruning at the minimum testing data set size

---
 src/hookeai/miscellaneous/pruning/pruning_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/miscellaneous/pruning/pruning_dataset.py b/src/hookeai/miscellaneous/pruning/pruning_dataset.py
index 47b269f..e464fde 100644
--- a/src/hookeai/miscellaneous/pruning/pruning_dataset.py
+++ b/src/hookeai/miscellaneous/pruning/pruning_dataset.py
@@ -710,7 +710,7 @@ def perform_pruning_step(prun_datasets_dir, pruning_params, dev_dataset,
         step_status = 'Minimum development data set size reached.'
     elif n_dev/n_full < ratio_dev_min:
         step_status = 'Minimum pruning testing data set size ratio reached.'
-    elif n_dev < n_prun_test_min:
+    elif len(test_dataset) < n_prun_test_min:
         step_status = 'Minimum pruning testing data set size reached.'
     elif n_prun_sample/len(test_dataset) > prun_test_ratio_max:
         step_status = 'Maximum pruned samples testing ratio reached.'
-- 
2.43.0


From 0d269d40e8ac465d2a55a52c7dfd2c9c3e9d3315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:25 +0000
Subject: [PATCH 55/78] fix: plot all samples of several prediction types

---
 .../model_architectures/procedures/convergence_plots.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/model_architectures/procedures/convergence_plots.py b/src/hookeai/model_architectures/procedures/convergence_plots.py
index 9b97d50..88e70e1 100644
--- a/src/hookeai/model_architectures/procedures/convergence_plots.py
+++ b/src/hookeai/model_architectures/procedures/convergence_plots.py
@@ -430,7 +430,7 @@ def plot_time_series_convergence(models_base_dirs, training_dirs, testing_dirs,
             elif plot_type == 'time_series_path':
                 # Set all available samples
                 if samples_ids == 'all':
-                    samples_ids = range(testing_size)
+                    samples_ids = list(range(testing_size))
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Loop over samples
                 for sample_id in samples_ids:
@@ -920,7 +920,7 @@ def plot_time_series_convergence_uq(models_base_dirs, training_dirs,
             elif plot_type == 'time_series_path':
                 # Set all available samples
                 if samples_ids == 'all':
-                    samples_ids = range(testing_size)
+                    samples_ids = list(range(testing_size))
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Loop over samples
                 for sample_id in samples_ids:
-- 
2.43.0


From d979fa21cfac39692ffdb61e8014a6d69de4173d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:46 +0000
Subject: [PATCH 56/78] fix: import the prediction data arrays of the recurrent
 model script

---
 .../local_model_update/rc_material_model/predict.py          | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py b/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py
index 3b099b7..5b83ff4 100644
--- a/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py
+++ b/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py
@@ -32,9 +32,8 @@ from time_series_data.time_dataset import load_dataset, \
 from model_architectures.rc_base_model.predict.prediction import predict
 from model_architectures.procedures.model_prediction import \
     plot_time_series_prediction, plot_truth_vs_prediction
-from projects.darpa_metals.rnn_material_model.rnn_model_tools. \
-    process_predictions import build_prediction_data_arrays, \
-        build_time_series_predictions_data
+from model_architectures.materials.process_predictions import \
+    build_prediction_data_arrays, build_time_series_predictions_data
 from ioput.iostandard import make_directory, find_unique_file_with_regex
 from utilities.output_prediction_metrics import \
     compute_directory_prediction_metrics
-- 
2.43.0


From cd530c2a281f7e21425dd92b856696d5fc8b1c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:45 +0000
Subject: [PATCH 57/78] fix: read specimen nodes by label, whatever their order
 in the mesh and time step files

---
 .../material_finder/gen_specimen_data.py          | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
index d8e4b6c..eeeef44 100644
--- a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
+++ b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
@@ -214,16 +214,20 @@ def get_specimen_mesh_from_inp_file(specimen_inp_path, n_dim):
             # Finished processing NODE section
             break
         elif is_keyword_found:
-            # Get node coordinates
+            # Get node label and coordinates
+            node_data = line.split(sep=',')
             nodes_coords.append(
-                [float(x) for x in line.split(sep=',')[1:1+n_dim]])
+                (int(node_data[0]),
+                 [float(x) for x in node_data[1:1+n_dim]]))
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Build mesh nodes initial coordinates
     if len(nodes_coords) == 0:
         raise RuntimeError('The *NODE keyword has not been found in the '
                            'specimen mesh input file (.inp).')
     else:
-        nodes_coords_mesh_init = torch.tensor(nodes_coords)
+        # Sort nodes by label
+        nodes_coords_mesh_init = torch.tensor(
+            [coords for _, coords in sorted(nodes_coords)])
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Get number of nodes
     n_node_mesh = nodes_coords_mesh_init.shape[0]
@@ -446,8 +450,9 @@ def get_specimen_numerical_data(specimen_history_paths, n_dim, n_node_mesh):
                                f'Expected columns: NODE | X1 X2 X3 | '
                                f'U1 U2 U3 | RF1 RF2 RF3 | DBC1 DBC2 DBC3')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Store time step data
-        node_data[:, :, i] = torch.tensor(df.values)
+        # Store time step data (sorted by node label)
+        node_data[:, :, i] = torch.tensor(
+            df.sort_values(by=df.columns[0]).values)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Extract displacements history
     nodes_disps_mesh_hist = node_data[:, 4:4+n_dim, :]
-- 
2.43.0


From 0e9da35f29f098d67ebb24869a9c19e78e893f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:46 +0000
Subject: [PATCH 58/78] fix: take the mean normal stress as volumetric stress,
 so that the deviatoric stress is deviatoric

---
 src/hookeai/model_architectures/materials/stress_features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/model_architectures/materials/stress_features.py b/src/hookeai/model_architectures/materials/stress_features.py
index 88fc97b..7e22103 100644
--- a/src/hookeai/model_architectures/materials/stress_features.py
+++ b/src/hookeai/model_architectures/materials/stress_features.py
@@ -153,7 +153,7 @@ def compute_stress_feature(stress_comps_array, stress_feature_label, n_dim,
                                'be computed from three-dimensional stress '
                                'tensor.')
         # Compute volumetric (or hydrostatic) stress
-        stress_feature = torch.trace(stress)
+        stress_feature = torch.trace(stress)/3.0
     elif stress_feature_label == 'dev_stress':
         # Check number of spatial dimensions
         if n_dim != 3:
@@ -161,7 +161,7 @@ def compute_stress_feature(stress_comps_array, stress_feature_label, n_dim,
                                'computed from three-dimensional stress '
                                'tensor.')
         # Compute volumetric (or hydrostatic) stress
-        vol_stress = torch.trace(stress)
+        vol_stress = torch.trace(stress)/3.0
         # Compute deviatoric stress
         dev_stress = stress - vol_stress*torch.eye(n_dim)
         # Store deviatoric stress components
-- 
2.43.0


From 728286334c009c87a6cafdbd6a35d0689dc89524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:53 +0000
Subject: [PATCH 59/78] fix: accept the Dirichlet columns of specimen history
 files when adding or removing displacement noise

---
 .../miscellaneous/noisy_data/denoise_disp_noise_csv.py   | 9 +++++----
 .../miscellaneous/noisy_data/inject_disp_noise_csv.py    | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/hookeai/miscellaneous/noisy_data/denoise_disp_noise_csv.py b/src/hookeai/miscellaneous/noisy_data/denoise_disp_noise_csv.py
index 7616a5f..47e71d5 100644
--- a/src/hookeai/miscellaneous/noisy_data/denoise_disp_noise_csv.py
+++ b/src/hookeai/miscellaneous/noisy_data/denoise_disp_noise_csv.py
@@ -104,11 +104,12 @@ def denoise_displacements_noise(csv_data_dir, denoise_parameters={},
         df = pandas.read_csv(data_file_path)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Check data
-        if df.shape[1] != 10:
-            raise RuntimeError(f'Expecting data frame to have 10 columns, but '
-                               f'{df.shape[1]} were found. \n\n'
+        if df.shape[1] not in (10, 13):
+            raise RuntimeError(f'Expecting data frame to have 10 or 13 '
+                               f'columns, but {df.shape[1]} were found. \n\n'
                                f'Expected columns: NODE | X1 X2 X3 | '
-                               f'U1 U2 U3 | RF1 RF2 RF3')
+                               f'U1 U2 U3 | RF1 RF2 RF3 | '
+                               f'DBC1 DBC2 DBC3 (optional)')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Get node displacements
         nodes_disps_mesh = np.array(df.values)[:, 4:7]
diff --git a/src/hookeai/miscellaneous/noisy_data/inject_disp_noise_csv.py b/src/hookeai/miscellaneous/noisy_data/inject_disp_noise_csv.py
index 1545bca..9882c42 100644
--- a/src/hookeai/miscellaneous/noisy_data/inject_disp_noise_csv.py
+++ b/src/hookeai/miscellaneous/noisy_data/inject_disp_noise_csv.py
@@ -107,11 +107,12 @@ def inject_displacements_noise(csv_data_dir, noise_parameters):
         df = pandas.read_csv(data_file_path)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Check data
-        if df.shape[1] != 10:
-            raise RuntimeError(f'Expecting data frame to have 10 columns, but '
-                               f'{df.shape[1]} were found. \n\n'
+        if df.shape[1] not in (10, 13):
+            raise RuntimeError(f'Expecting data frame to have 10 or 13 '
+                               f'columns, but {df.shape[1]} were found. \n\n'
                                f'Expected columns: NODE | X1 X2 X3 | '
-                               f'U1 U2 U3 | RF1 RF2 RF3')
+                               f'U1 U2 U3 | RF1 RF2 RF3 | '
+                               f'DBC1 DBC2 DBC3 (optional)')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Get node displacements
         nodes_disps_mesh = np.array(df.values)[:, 4:7]
-- 
2.43.0


From 817263a296f220d813221281eaeaf8b74e5f2e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:02 +0000
Subject: [PATCH 60/78] fix: limit time series plots of rc and hybrid
 predictions to data set size

---
 .../local_model_update/hybrid_material_model/predict.py    | 7 +++++--
 .../local_model_update/rc_material_model/predict.py        | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/user_scripts/local_model_update/hybrid_material_model/predict.py b/src/hookeai/user_scripts/local_model_update/hybrid_material_model/predict.py
index 669aa00..ff36bb6 100644
--- a/src/hookeai/user_scripts/local_model_update/hybrid_material_model/predict.py
+++ b/src/hookeai/user_scripts/local_model_update/hybrid_material_model/predict.py
@@ -212,7 +212,10 @@ def generate_prediction_plots(dataset_file_path, predict_subdir):
         make_directory(plot_dir)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Get first sample from testing data set
-    probe_response_path = load_dataset(dataset_file_path)[0]
+    testing_dataset = load_dataset(dataset_file_path)
+    probe_response_path = testing_dataset[0]
+    # Get testing data set size
+    n_sample = len(testing_dataset)
     # Get stress components
     stress_comps_order = probe_response_path['stress_comps_order']
     # Build stress components predictions labels
@@ -255,7 +258,7 @@ def generate_prediction_plots(dataset_file_path, predict_subdir):
     # Plot model time series prediction and ground-truth
     for prediction_type, prediction_labels in prediction_types.items():
         # Set samples for which time series data is plotted
-        samples_ids = list(np.arange(5, dtype=int))
+        samples_ids = list(np.arange(np.min((5, n_sample)), dtype=int))
         # Set plot reference prediction data
         is_reference_data = False
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~ 
diff --git a/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py b/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py
index 5b83ff4..3aa14e4 100644
--- a/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py
+++ b/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py
@@ -166,7 +166,10 @@ def generate_prediction_plots(dataset_file_path, predict_subdir):
         make_directory(plot_dir)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Get first sample from testing data set
-    probe_response_path = load_dataset(dataset_file_path)[0]
+    testing_dataset = load_dataset(dataset_file_path)
+    probe_response_path = testing_dataset[0]
+    # Get testing data set size
+    n_sample = len(testing_dataset)
     # Get stress components
     stress_comps_order = probe_response_path['stress_comps_order']
     # Build stress components predictions labels
@@ -210,7 +213,7 @@ def generate_prediction_plots(dataset_file_path, predict_subdir):
     # Plot model time series prediction and ground-truth
     for prediction_type, prediction_labels in prediction_types.items():
         # Set samples for which time series data is plotted
-        samples_ids = list(np.arange(5, dtype=int))
+        samples_ids = list(np.arange(np.min((5, n_sample)), dtype=int))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~ 
         # Build times series predictions data arrays
         prediction_data_dicts = build_time_series_predictions_data(
-- 
2.43.0


From e844cc931e39292878e2206ff2f3adb862042b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:02 +0000
Subject: [PATCH 61/78] fix: label composite data sets with the rounded
 composition in GRU pipeline

---
 .../complete_pipelines/evaluate_gru_model.py  | 22 +++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/hookeai/user_scripts/complete_pipelines/evaluate_gru_model.py b/src/hookeai/user_scripts/complete_pipelines/evaluate_gru_model.py
index 76cb5a7..856f2e3 100644
--- a/src/hookeai/user_scripts/complete_pipelines/evaluate_gru_model.py
+++ b/src/hookeai/user_scripts/complete_pipelines/evaluate_gru_model.py
@@ -140,7 +140,7 @@ def extract_strain_path(dataset, temperature, composition, device='cpu'):
     """
     # Extract strain path
     strain_path = \
-        dataset[f'strain_frac_{int(composition*100)}_T_{temperature}']
+        dataset[f'strain_frac_{round(composition*100)}_T_{temperature}']
     # Convert to torch tensor
     strain_path = torch.tensor(strain_path, dtype=torch.get_default_dtype())
     # Move to device
@@ -613,9 +613,9 @@ def evaluate_gru_material_model():
             # Loop over compositions
             for composition in compositions:
                 print(f'\nProcessing: T={temperature}°C | '
-                      f'C={int(composition*100)}% ...')
+                      f'C={round(composition*100)}% ...')
                 # Set temperature-composition key
-                temp_comp_key = f'T_{temperature}_C_{int(composition*100)}'
+                temp_comp_key = f'T_{temperature}_C_{round(composition*100)}'
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Load strain path from uniaxial stress dataset
                 strain_path = torch.tensor(
@@ -654,14 +654,14 @@ def evaluate_gru_material_model():
                 strain_comp_paths.append(strain_path[:, strain_idx].numpy())
                 stress_comp_paths.append(stress_path[:, stress_idx].numpy())
                 # Store data label
-                data_labels.append(f'{int(composition*100)}\%')
+                data_labels.append(f'{round(composition*100)}\%')
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Store reference strain and stress component path
                 strain_comp_paths.append(strain_path[:, strain_idx].numpy())
                 stress_comp_paths.append(
                     ref_stress_path[:, stress_idx].numpy())
                 # Store reference data label
-                data_labels.append(f'{int(composition*100)}\% (J2)')
+                data_labels.append(f'{round(composition*100)}\% (J2)')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Set plot title
             plot_title = f'T = {temperature} °C'
@@ -692,9 +692,9 @@ def evaluate_gru_material_model():
             # Loop over temperatures
             for temperature in temperatures:
                 print(f'\nProcessing: T={temperature}°C | '
-                      f'C={int(composition*100)}% ...')
+                      f'C={round(composition*100)}% ...')
                 # Set temperature-composition key
-                temp_comp_key = f'T_{temperature}_C_{int(composition*100)}'
+                temp_comp_key = f'T_{temperature}_C_{round(composition*100)}'
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Load strain path from uniaxial stress dataset
                 strain_path = torch.tensor(
@@ -743,7 +743,7 @@ def evaluate_gru_material_model():
                 data_labels.append(f'{temperature}°C (J2)')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Set plot title
-            plot_title = f'C = {int(composition*100)}\%'
+            plot_title = f'C = {round(composition*100)}\%'
             # Plot stress vs strain component paths
             figure, _ = plot_strain_stress_paths(
                 strain_comp_paths=strain_comp_paths,
@@ -753,7 +753,7 @@ def evaluate_gru_material_model():
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Set figure file path
             fig_file_path = pathlib.Path(plots_dir) / \
-                f'stress_vs_strain_C_{int(composition*100)}'
+                f'stress_vs_strain_C_{round(composition*100)}'
             # Save figure
             save_figure(figure, fig_file_path, format='pdf')
             # Close figure
@@ -817,9 +817,9 @@ def build_uniaxial_stress_dataset():
         # Loop over compositions
         for composition in compositions:
             print(f'\nProcessing: T={temperature}°C | '
-                  f'C={int(composition*100)}% ...')
+                  f'C={round(composition*100)}% ...')
             # Set temperature-composition key
-            temp_comp_key = f'T_{temperature}_C_{int(composition*100)}'
+            temp_comp_key = f'T_{temperature}_C_{round(composition*100)}'
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Set material model
             if model_name == 'von_mises':
-- 
2.43.0


From 17fe4c194478048afc486645989204d609b34c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:12 +0000
Subject: [PATCH 62/78] fix: check existing target directory when setting
 pipeline dependencies

---
 .../user_scripts/complete_pipelines/local_model_update.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
index 1f74d83..b0930bc 100644
--- a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
+++ b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
@@ -679,7 +679,7 @@ def set_dependencies_dir(target_dir, temperature, composition):
         Directory for given values of dependency parameters.
     """
     # Check target directory
-    if not os.path.isdir(base_dir):
+    if not os.path.isdir(target_dir):
         raise RuntimeError('The target directory has not been found:\n\n'
                            + target_dir)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From 85caa7879def6daba57f3a788515a38a786be573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:12 +0000
Subject: [PATCH 63/78] fix: allow data sets of random strain paths only in
 local model update pipeline

---
 .../user_scripts/complete_pipelines/local_model_update.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
index b0930bc..79b0e74 100644
--- a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
+++ b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
@@ -162,7 +162,7 @@ def generate_material_data(lmu_dir, strain_formulation, problem_type,
                                f'1. Please increase the total number of '
                                f'samples or the ratio of random strain path '
                                f'samples.')
-        if n_prp_sample < 1:
+        if n_prp_sample < 1 and rnd_strain_path_ratio[dataset_type] < 1.0:
             raise RuntimeError(f'Number of proportional strain path samples '
                                f'for data set type "{dataset_type}" is less '
                                f'than 1. Please increase the total number of '
-- 
2.43.0


From 6958f0f41bfa5b376abfb9cb20ee373f9fb82f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:12 +0000
Subject: [PATCH 64/78] fix: build local paths data set from current specimen
 data format

---
 .../material_finder/gen_specimen_local_paths.py  |  9 ++++++---
 .../synthetic_data/build_local_paths_dataset.py  | 16 ++++++++--------
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_local_paths.py b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_local_paths.py
index ed74588..888eee1 100644
--- a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_local_paths.py
+++ b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_local_paths.py
@@ -40,7 +40,8 @@ __status__ = 'Stable'
 def gen_specimen_local_dataset(specimen_data_path,
                                specimen_material_state_path,
                                model_directory, is_plot_dataset=False,
-                               device_type='cpu', is_verbose=False):
+                               device_type='cpu', is_verbose=False,
+                               force_equilibrium_loss_type='dirichlet_sets'):
     """Generate specimen local strain-stress paths data set.
     
     Parameters
@@ -59,6 +60,10 @@ def gen_specimen_local_dataset(specimen_data_path,
         Type of device on which torch.Tensor is allocated.
     is_verbose : bool, default=False
         If True, enable verbose output.
+    force_equilibrium_loss_type : {'pointwise', 'dirichlet_sets'}, \
+                                  default='dirichlet_sets'
+        Type of force equilibrium loss (must be compatible with the specimen
+        Dirichlet boundary constraints labels).
         
     Returns
     -------
@@ -78,8 +83,6 @@ def gen_specimen_local_dataset(specimen_data_path,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set material model finder name
     model_finder_name = 'material_model_finder'
-    # Set force equilibrium loss type
-    force_equilibrium_loss_type = 'dirichlet_sets'
     # Set force normalization
     is_force_normalization = False
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
diff --git a/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py b/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py
index 8952798..fd460ce 100644
--- a/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py
@@ -46,9 +46,8 @@ from user_scripts.global_model_update.material_finder. \
     gen_specimen_local_paths import gen_specimen_local_dataset
 from user_scripts.synthetic_data.gen_response_dataset import \
     generate_dataset_plots
-from simulators.links.utilities.links_dat_to_inp import links_dat_to_abaqus_inp
-from simulators.links.utilities.links_nodedata_to_csv import \
-    links_node_output_to_csv
+from simulators.links.utilities.links_data_to_adimu import \
+    gen_adimu_data_from_links
 from ioput.iostandard import make_directory
 #
 #                                                          Authorship & Credits
@@ -249,10 +248,10 @@ def gen_patch_formatted_data(patch_data_dir, patch_name):
     links_output_dir = \
         os.path.join(os.path.normpath(simulations_dir), f'{patch_name}')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-    # Convert Links input data file to Abaqus input data file    
-    abaqus_inp_file_path = links_dat_to_abaqus_inp(links_input_file_path)
-    # Convert Links node output data files to '.csv' files
-    node_data_csv_dir = links_node_output_to_csv(links_output_dir)
+    # Convert Links input data file to Abaqus input data file and Links node
+    # output data files to '.csv' files
+    abaqus_inp_file_path, node_data_csv_dir = gen_adimu_data_from_links(
+        links_input_file_path, links_output_dir, simulations_dir)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return abaqus_inp_file_path, node_data_csv_dir
 # =============================================================================
@@ -460,7 +459,8 @@ def gen_patch_local_dataset(model_finder_dir, patch_data_path,
     # Generate material patch local strain-stress paths data set
     local_dataset, _ = gen_specimen_local_dataset(
         patch_data_path, patch_material_state_path, model_directory,
-        device_type=device_type, is_verbose=is_verbose)
+        device_type=device_type, is_verbose=is_verbose,
+        force_equilibrium_loss_type='pointwise')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return local_dataset
 # =============================================================================
-- 
2.43.0


From c8c00ed6528ddb7fe07b44b7feea824d41cda34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:02 +0000
Subject: [PATCH 65/78] fix: plot optimization history of each process with its
 own data

---
 .../optimization/hydra_optimization_plots.py               | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/model_architectures/rnn_base_model/optimization/hydra_optimization_plots.py b/src/hookeai/model_architectures/rnn_base_model/optimization/hydra_optimization_plots.py
index f4f6899..b8fc506 100644
--- a/src/hookeai/model_architectures/rnn_base_model/optimization/hydra_optimization_plots.py
+++ b/src/hookeai/model_architectures/rnn_base_model/optimization/hydra_optimization_plots.py
@@ -201,9 +201,9 @@ def plot_optimization_history(optim_history, optim_metric, is_log_metric=False,
         # Assemble optimization process history to data array
         data_xy[:n_jobs, 2*i] = tuple([*range(0, n_jobs)])
         if is_log_metric:
-            data_xy[:n_jobs, 2*i + 1] = tuple(np.log(metric_hist))
+            data_xy[:n_jobs, 2*i + 1] = tuple(np.log(data_hist))
         else:
-            data_xy[:n_jobs, 2*i + 1] = tuple(metric_hist)
+            data_xy[:n_jobs, 2*i + 1] = tuple(data_hist)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set axes limits and scale
     x_lims = (0, max_n_jobs)
@@ -228,7 +228,8 @@ def plot_optimization_history(optim_history, optim_metric, is_log_metric=False,
                                    is_latex=is_latex)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Build best-so-far history
-    data_min_xy = np.copy(data_xy)
+    n_jobs = len(next(iter(optim_data.values())))
+    data_min_xy = np.copy(data_xy[:n_jobs, :])
     data_min = data_xy[0, 1]
     for i in range(data_min_xy.shape[0]):
         if data_xy[i, 1] < data_min:
-- 
2.43.0


From 98490cb10cc27e71514ffe599ff6fb55f3825bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:02 +0000
Subject: [PATCH 66/78] fix: allow optimization jobs without early stopping

---
 .../rnn_base_model/optimization/hydra_optimization.py            | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hookeai/model_architectures/rnn_base_model/optimization/hydra_optimization.py b/src/hookeai/model_architectures/rnn_base_model/optimization/hydra_optimization.py
index 3406298..58d0571 100644
--- a/src/hookeai/model_architectures/rnn_base_model/optimization/hydra_optimization.py
+++ b/src/hookeai/model_architectures/rnn_base_model/optimization/hydra_optimization.py
@@ -137,6 +137,7 @@ def hydra_wrapper(process, dataset_paths, device_type='cpu'):
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Set early stopping
             is_early_stopping = cfg.is_early_stopping
+            early_stopping_kwargs = {}
             # Set early stopping parameters
             if is_early_stopping:
                 # Get validation data set file path
-- 
2.43.0


From 01c78812b691fe1e4103cd30476581573b723ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:02 +0000
Subject: [PATCH 67/78] fix: plot strain paths of different lengths

---
 .../data_generation/strain_paths/interface.py     | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/hookeai/data_generation/strain_paths/interface.py b/src/hookeai/data_generation/strain_paths/interface.py
index 3130c53..9fce22a 100644
--- a/src/hookeai/data_generation/strain_paths/interface.py
+++ b/src/hookeai/data_generation/strain_paths/interface.py
@@ -275,7 +275,7 @@ class StrainPathGenerator(ABC):
             for k in range(min(n_path, 5)):
                 # Set strain data array
                 strain_data_xy = \
-                    np.zeros((n_time_max, 2*len(strain_comps_order)))
+                    np.zeros((len(time_hist[k]), 2*len(strain_comps_order)))
                 for j in range(len(strain_comps_order)):
                     strain_data_xy[:, 2*j] = time_hist[k].reshape(-1)
                     strain_data_xy[:, 2*j+1] = strain_path[k][:, j]
@@ -381,8 +381,9 @@ class StrainPathGenerator(ABC):
             # Plot strain norm distribution
             if is_plot_strain_norm_hist:
                 # Set strain data array
-                strain_paths_norm = tuple([strain_norm_data_xy[:, 2*k+1]
-                                           for k in range(n_path)])
+                strain_paths_norm = tuple(
+                    [strain_norm_data_xy[:len(time_hist[k]), 2*k+1]
+                        for k in range(n_path)])
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Concatenate strain paths
                 strain_paths_norm = \
@@ -409,9 +410,13 @@ class StrainPathGenerator(ABC):
         # Plot strain increment norm (path and distribution)
         if (is_plot_inc_strain_norm or is_plot_inc_strain_norm_hist):
             # Initialize strain increment norm data array
-            inc_strain_norm_data_xy = np.zeros((n_time_max, 2*n_path))
+            inc_strain_norm_data_xy = np.full((n_time_max, 2*n_path),
+                                              fill_value=np.nan)
             # Loop over strain paths
-            for k in range(n_path):     
+            for k in range(n_path):
+                # Set initial strain increment norm
+                inc_strain_norm_data_xy[0, 2*k] = time_hist[k][0]
+                inc_strain_norm_data_xy[0, 2*k+1] = 0.0
                 # Loop over time steps
                 for i in range(1, len(time_hist[k])):
                     # Assemble discrete time history
-- 
2.43.0


From 1bb67c94536ea4468ca9c6fab8cfb68643c404d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:02 +0000
Subject: [PATCH 68/78] fix: evaluate yield functions at hydrostatic stresses

---
 src/hookeai/miscellaneous/materials/plot_yield_surface.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/miscellaneous/materials/plot_yield_surface.py b/src/hookeai/miscellaneous/materials/plot_yield_surface.py
index 3e1571a..71f998c 100644
--- a/src/hookeai/miscellaneous/materials/plot_yield_surface.py
+++ b/src/hookeai/miscellaneous/materials/plot_yield_surface.py
@@ -270,9 +270,10 @@ def get_stress_invariants(stress):
     # Compute first invariant of deviatoric stress tensor
     j1 = i1
     # Compute second invariant of deviatoric stress tensor
-    j2 = (1/3)*(i1**2) - i2
+    dev_stress = stress - (1/3)*i1*np.eye(3)
+    j2 = 0.5*np.trace(np.matmul(dev_stress, dev_stress))
     # Compute third invariant of deviatoric stress tensor
-    j3 = (2/27)*(i1**3) - (1/3)*i1*i2 + i3
+    j3 = np.linalg.det(dev_stress)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return i1, i2, i3, j1, j2, j3
 # =============================================================================
-- 
2.43.0


From f4cc61f594d83a3d4aac8bc1742e5b8d44ff3b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:02 +0000
Subject: [PATCH 69/78] fix: save hardening laws comparison figure without
 displaying it

---
 .../miscellaneous/materials/compare_hardening_laws.py        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/miscellaneous/materials/compare_hardening_laws.py b/src/hookeai/miscellaneous/materials/compare_hardening_laws.py
index 6dfa71a..fd65e9b 100644
--- a/src/hookeai/miscellaneous/materials/compare_hardening_laws.py
+++ b/src/hookeai/miscellaneous/materials/compare_hardening_laws.py
@@ -88,7 +88,7 @@ def compare_hardening_laws(hardening_laws, save_dir=None, is_save_fig=False,
     print(comparison_data[:10, :])
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Plot hardening laws
-    if is_stdout_display:
+    if is_stdout_display or is_save_fig:
         # Get labels
         data_labels = list(hardening_laws.keys())
         # Set data array
@@ -102,7 +102,8 @@ def compare_hardening_laws(hardening_laws, save_dir=None, is_save_fig=False,
             x_lims=(acc_p_strain_min, acc_p_strain_max),
             y_lims=(None, None), is_latex=True)
         # Display figure
-        plt.show()
+        if is_stdout_display:
+            plt.show()
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Save figure
     if is_save_fig:
-- 
2.43.0


From 9d9fe3f4b3ab53fcfcde56568caaca5f422b13b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:02 +0000
Subject: [PATCH 70/78] fix: skip processes that are not training data set
 sizes

---
 src/hookeai/utilities/output_prediction_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/utilities/output_prediction_metrics.py b/src/hookeai/utilities/output_prediction_metrics.py
index b660b31..e407081 100644
--- a/src/hookeai/utilities/output_prediction_metrics.py
+++ b/src/hookeai/utilities/output_prediction_metrics.py
@@ -480,7 +480,7 @@ def plot_prediction_metrics_convergence(
         # Check if process label is training data set size
         training_size = re.search(r'^n([0-9]+)$', process_label)
         # Store prediction process training data set size
-        if id is not None:
+        if training_size is not None:
             # Get training data set size
             training_size = int(training_size.groups()[0])
             # Store training data set size
-- 
2.43.0


From 69dc6139a830afa5d8044cb3bacee99de6ed0d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:02 +0000
Subject: [PATCH 71/78] fix: plot deformed patch with free degrees of freedom
 on faces

---
 src/hookeai/data_generation/spdg/patch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hookeai/data_generation/spdg/patch.py b/src/hookeai/data_generation/spdg/patch.py
index 1a3518d..af5c3a2 100644
--- a/src/hookeai/data_generation/spdg/patch.py
+++ b/src/hookeai/data_generation/spdg/patch.py
@@ -556,6 +556,9 @@ class FiniteElementPatch:
                 # Loop over finite element mesh boundary nodes
                 mesh_bnd_nodes_coords_def = {}
                 for label in presc_bnd_nodes_labels:
+                    # Skip node with free degrees of freedom
+                    if None in self._mesh_boundary_nodes_disps[str(label)]:
+                        continue
                     # Compute finite element mesh boundary nodes coordinates
                     # (deformed configuration)
                     mesh_bnd_nodes_coords_def[str(label)] = \
-- 
2.43.0


From d59bdcb0f7a8642381cb7afba68a9df35ad88756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:12 +0000
Subject: [PATCH 72/78] fix: compute equivalent strain and stress from
 deviatoric tensors

---
 .../user_scripts/synthetic_data/gen_response_dataset.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
index cdee637..83a2558 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
@@ -1093,9 +1093,9 @@ class MaterialResponseDatasetGenerator():
                 # Compute equivalent strain and stress
                 if strain_formulation == 'infinitesimal':
                     eq_strain[i, 0] = np.sqrt(2.0/3.0)*np.linalg.norm(
-                        strain - (1.0/3.0)*np.trace(strain))
+                        strain - (1.0/3.0)*np.trace(strain)*np.eye(n_dim))
                     eq_stress[i, 0] = np.sqrt(3.0/2.0)*np.linalg.norm(
-                        stress - (1.0/3.0)*np.trace(stress))
+                        stress - (1.0/3.0)*np.trace(stress)*np.eye(n_dim))
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Store equivalent strain and stress path
             eq_strain_paths.append(eq_strain)
-- 
2.43.0


From 6db89509094b23bf95a6721ae235df4f68ac8747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:12 +0000
Subject: [PATCH 73/78] fix: plot stress metrics of paths of different lengths

---
 .../synthetic_data/gen_response_dataset.py    | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
index 83a2558..0f0eecf 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
@@ -1077,8 +1077,8 @@ class MaterialResponseDatasetGenerator():
         # Loop over strain-stress paths
         for k in range(n_path):
             # Initialize equivalent strain and stress path
-            eq_strain = np.zeros((n_time_max, 1))
-            eq_stress = np.zeros((n_time_max, 1))
+            eq_strain = np.full((n_time_max, 1), fill_value=np.nan)
+            eq_stress = np.full((n_time_max, 1), fill_value=np.nan)
             # Loop over discrete time
             for i in range(len(time_hist[k])):
                 # Get strain tensor
@@ -1239,7 +1239,7 @@ class MaterialResponseDatasetGenerator():
         # Compute stress invariants
         for k in range(n_path):
             # Initialize principal stresses
-            stress_eigen = np.zeros((n_time_max, n_dim))
+            stress_eigen = np.zeros((len(time_hist[k]), n_dim))
             # Loop over discrete time
             for i in range(len(time_hist[k])):
                 # Get stress tensor
@@ -1303,7 +1303,7 @@ class MaterialResponseDatasetGenerator():
                     stress_paths_principal[k][:, np.random.permutation(3)]
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Initialize stresses in pi-stress space
-                stress_pi = np.zeros((n_time_max, n_dim))
+                stress_pi = np.zeros((len(time_hist[k]), n_dim))
                 # Loop over discrete time
                 for i in range(len(time_hist[k])):
                     # Get principal stresses
@@ -1352,8 +1352,8 @@ class MaterialResponseDatasetGenerator():
         # Compute stress invariants
         for k in range(n_path):
             # Initialize stress invariants
-            stress_invar = np.zeros((n_time_max, 3))
-            stress_invar_dev = np.zeros((n_time_max, 3))
+            stress_invar = np.zeros((len(time_hist[k]), 3))
+            stress_invar_dev = np.zeros((len(time_hist[k]), 3))
             # Loop over discrete time
             for i in range(len(time_hist[k])):
                 # Get stress tensor
@@ -1414,8 +1414,8 @@ class MaterialResponseDatasetGenerator():
         # Compute triaxiality and Lode parameter
         for k in range(n_path):
             # Initialize stress invariants
-            stress_triax = np.zeros((n_time_max, 1))
-            stress_lode = np.zeros((n_time_max, 1))
+            stress_triax = np.zeros((len(time_hist[k]), 1))
+            stress_lode = np.zeros((len(time_hist[k]), 1))
             # Get stress path stress invariants
             stress_invar = stress_paths_invar[k]
             stress_invar_dev = stress_paths_invar_dev[k]
@@ -1440,7 +1440,7 @@ class MaterialResponseDatasetGenerator():
         # Plot stress triaxiality and Lode parameter paths
         if is_plot_stress_path_triax_lode:
             # Set stress triaxiality data array
-            triax_data_xy = np.zeros((n_time_max, 2*n_path))
+            triax_data_xy = np.full((n_time_max, 2*n_path), fill_value=np.nan)
             for k in range(n_path):
                 triax_data_xy[:len(time_hist[k]), 2*k] = time_hist[k]
                 triax_data_xy[:len(time_hist[k]), 2*k+1] = \
@@ -1458,7 +1458,7 @@ class MaterialResponseDatasetGenerator():
                             save_dir=save_dir)
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Set stress Lode parameter data array
-            lode_data_xy = np.zeros((n_time_max, 2*n_path))
+            lode_data_xy = np.full((n_time_max, 2*n_path), fill_value=np.nan)
             for k in range(n_path):
                 lode_data_xy[:len(time_hist[k]), 2*k] = time_hist[k]
                 lode_data_xy[:len(time_hist[k]), 2*k+1] = \
-- 
2.43.0


From d2b54c802c880c60a94b770fb8778a6f184d8556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:12 +0000
Subject: [PATCH 74/78] fix: plot stress paths with stress components order

---
 .../user_scripts/synthetic_data/gen_response_dataset.py     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
index 0f0eecf..e7cd2dd 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
@@ -1783,10 +1783,12 @@ def generate_dataset_plots(strain_formulation, n_dim, dataset,
         is_save_fig=is_save_fig,
         is_stdout_display=is_stdout_display,
         is_latex=True)
+    # Get stress components order
+    stress_comps_order = dataset[0]['stress_comps_order']
     # Plot stress paths data
     StrainPathGenerator.plot_strain_path(
         strain_formulation, n_dim,
-        strain_comps_order, time_hists, stress_paths,
+        stress_comps_order, time_hists, stress_paths,
         is_plot_strain_path=True,
         is_plot_strain_comp_hist=False,
         is_plot_strain_norm=False,
@@ -1805,8 +1807,6 @@ def generate_dataset_plots(strain_formulation, n_dim, dataset,
         is_stdout_display=is_stdout_display,
         is_latex=True)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-    # Get stress components order
-    stress_comps_order = dataset[0]['stress_comps_order']
     # Plot stress paths data
     if n_dim == 3:
         MaterialResponseDatasetGenerator.plot_stress_space_metrics(
-- 
2.43.0


From 995b82c7d4a4adc5bf42af0de47725b175a73a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:46 +0000
Subject: [PATCH 75/78] fix: test best model state in optimization jobs

---
 .../rnn_base_model/optimization/hydra_optimization.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/model_architectures/rnn_base_model/optimization/hydra_optimization.py b/src/hookeai/model_architectures/rnn_base_model/optimization/hydra_optimization.py
index 58d0571..0895976 100644
--- a/src/hookeai/model_architectures/rnn_base_model/optimization/hydra_optimization.py
+++ b/src/hookeai/model_architectures/rnn_base_model/optimization/hydra_optimization.py
@@ -227,7 +227,7 @@ def hydra_wrapper(process, dataset_paths, device_type='cpu'):
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Testing of GRU material model
                 predict_subdir, avg_predict_loss_sample = predict(
-                    testing_dataset, model.model_directory, model=model,
+                    testing_dataset, model.model_directory,
                     predict_directory=testing_subdir,
                     model_load_state='best', loss_nature=cfg.loss_nature,
                     loss_type=cfg.loss_type, loss_kwargs=cfg.loss_kwargs,
-- 
2.43.0


From a39c29395d88ae3816cde577b3eb4edf88e6a01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:24 +0000
Subject: [PATCH 76/78] fix: store edits of a part of a data set kept in files

The functions that edit the samples of a data set only wrote the edited
samples back when given a TimeSeriesDataset. Given a subset of it (as
returned by split_dataset), the edits were silently lost.
---
 .../materials/strain_features.py              |  6 +-
 .../materials/stress_features.py              |  6 +-
 src/hookeai/time_series_data/time_dataset.py  | 55 +++++++++++++++----
 3 files changed, 51 insertions(+), 16 deletions(-)

diff --git a/src/hookeai/model_architectures/materials/strain_features.py b/src/hookeai/model_architectures/materials/strain_features.py
index eae414e..44aa04c 100644
--- a/src/hookeai/model_architectures/materials/strain_features.py
+++ b/src/hookeai/model_architectures/materials/strain_features.py
@@ -19,7 +19,8 @@ import itertools
 # Third-party
 import torch
 # Local
-from time_series_data.time_dataset import TimeSeriesDataset, load_dataset
+from time_series_data.time_dataset import (
+    update_stored_sample, load_dataset)
 #
 #                                                          Authorship & Credits
 # =============================================================================
@@ -109,8 +110,7 @@ def add_strain_features(dataset, strain_feature_label):
         sample[strain_feature_label] = strain_feature_path
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Update data set sample
-        if isinstance(dataset, TimeSeriesDataset):
-            dataset.update_dataset_sample(i, sample)
+        update_stored_sample(dataset, i, sample)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return dataset
 # =============================================================================
diff --git a/src/hookeai/model_architectures/materials/stress_features.py b/src/hookeai/model_architectures/materials/stress_features.py
index 7e22103..1a09b93 100644
--- a/src/hookeai/model_architectures/materials/stress_features.py
+++ b/src/hookeai/model_architectures/materials/stress_features.py
@@ -19,7 +19,8 @@ import itertools
 # Third-party
 import torch
 # Local
-from time_series_data.time_dataset import TimeSeriesDataset, load_dataset
+from time_series_data.time_dataset import (
+    update_stored_sample, load_dataset)
 #
 #                                                          Authorship & Credits
 # =============================================================================
@@ -109,8 +110,7 @@ def add_stress_features(dataset, stress_feature_label):
         sample[stress_feature_label] = stress_feature_path
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Update data set sample
-        if isinstance(dataset, TimeSeriesDataset):
-            dataset.update_dataset_sample(i, sample)
+        update_stored_sample(dataset, i, sample)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return dataset
 # =============================================================================
diff --git a/src/hookeai/time_series_data/time_dataset.py b/src/hookeai/time_series_data/time_dataset.py
index b98d7ca..68e15cd 100644
--- a/src/hookeai/time_series_data/time_dataset.py
+++ b/src/hookeai/time_series_data/time_dataset.py
@@ -194,6 +194,45 @@ def load_dataset(dataset_file_path):
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return dataset
 # =============================================================================
+def get_source_dataset(dataset):
+    """Get data set from which a (possibly nested) data subset is extracted.
+
+    Parameters
+    ----------
+    dataset : torch.utils.data.Dataset
+        Time series data set or subset.
+
+    Returns
+    -------
+    dataset : torch.utils.data.Dataset
+        Time series data set.
+    """
+    while isinstance(dataset, torch.utils.data.Subset):
+        dataset = dataset.dataset
+    return dataset
+# =============================================================================
+def update_stored_sample(dataset, index, sample):
+    """Update sample file of time series data set stored in local directory.
+
+    In-memory data sets do not require any update.
+
+    Parameters
+    ----------
+    dataset : torch.utils.data.Dataset
+        Time series data set or subset.
+    index : int
+        Sample index (must be in [0, n_sample - 1]).
+    sample : dict
+        Sample data.
+    """
+    # Get source data set and corresponding sample index
+    while isinstance(dataset, torch.utils.data.Subset):
+        index = dataset.indices[index]
+        dataset = dataset.dataset
+    # Update sample file
+    if isinstance(dataset, TimeSeriesDataset):
+        dataset.update_dataset_sample(index, sample)
+# =============================================================================
 def change_dataset_features_labels(dataset, features_label_map):
     """Change time series data set features labels.
     
@@ -226,8 +265,7 @@ def change_dataset_features_labels(dataset, features_label_map):
                        if old_label in sample.keys()})
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Update data set sample
-        if isinstance(dataset, TimeSeriesDataset):
-            dataset.update_dataset_sample(i, sample)
+        update_stored_sample(dataset, i, sample)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return dataset
 # =============================================================================
@@ -270,8 +308,7 @@ def add_dataset_feature_init(dataset, feature_label, feature_init):
         sample[str(feature_label)] = feature_init
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Update data set sample
-        if isinstance(dataset, TimeSeriesDataset):
-            dataset.update_dataset_sample(i, sample)
+        update_stored_sample(dataset, i, sample)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return dataset
 # =============================================================================
@@ -314,7 +351,7 @@ def concatenate_dataset_features(dataset, new_feature_label,
                                f'because it does not exist in the data set.')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set data set storage type
-    if isinstance(dataset, TimeSeriesDataset):
+    if isinstance(get_source_dataset(dataset), TimeSeriesDataset):
         is_in_memory_dataset = False
     else:
         is_in_memory_dataset = True
@@ -340,8 +377,7 @@ def concatenate_dataset_features(dataset, new_feature_label,
                     sample.pop(label)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Update data set sample
-        if isinstance(dataset, TimeSeriesDataset):
-            dataset.update_dataset_sample(i, sample)
+        update_stored_sample(dataset, i, sample)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return dataset
 # =============================================================================
@@ -396,7 +432,7 @@ def sum_dataset_features(dataset, new_feature_label, sum_features_labels,
             sum_weights[feature_label] = 1.0
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set data set storage type
-    if isinstance(dataset, TimeSeriesDataset):
+    if isinstance(get_source_dataset(dataset), TimeSeriesDataset):
         is_in_memory_dataset = False
     else:
         is_in_memory_dataset = True
@@ -427,8 +463,7 @@ def sum_dataset_features(dataset, new_feature_label, sum_features_labels,
                     sample.pop(label)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Update data set sample
-        if isinstance(dataset, TimeSeriesDataset):
-            dataset.update_dataset_sample(i, sample)
+        update_stored_sample(dataset, i, sample)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return dataset
 # =============================================================================
-- 
2.43.0


From b845086ae7dc042fde1d680d049ad026d805cd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:46 +0000
Subject: [PATCH 77/78] fix: evaluate the force equilibrium loss from the
 virgin material state

With standard (not recurrent) material models, the sequential forward
propagations started from the material state left by the previous
evaluation, so evaluating the same loss again gave another value.
---
 .../model/material_discovery.py               |  4 ++++
 .../fetorch/structure/structure_state.py      | 19 +++++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 035c1b3..b5c56f9 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -896,6 +896,8 @@ class MaterialModelFinder(torch.nn.Module):
         specimen_data = self._specimen_data
         # Get specimen material state
         specimen_material_state = self._specimen_material_state
+        # Reset specimen material state
+        specimen_material_state.reset_elements_state()
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Get specimen finite element mesh
         specimen_mesh = specimen_data.specimen_mesh
@@ -1011,6 +1013,8 @@ class MaterialModelFinder(torch.nn.Module):
         specimen_data = self._specimen_data
         # Get specimen material state
         specimen_material_state = self._specimen_material_state
+        # Reset specimen material state
+        specimen_material_state.reset_elements_state()
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Get specimen finite element mesh
         specimen_mesh = specimen_data.specimen_mesh
diff --git a/src/hookeai/simulators/fetorch/structure/structure_state.py b/src/hookeai/simulators/fetorch/structure/structure_state.py
index a1b6aaf..774aa6d 100644
--- a/src/hookeai/simulators/fetorch/structure/structure_state.py
+++ b/src/hookeai/simulators/fetorch/structure/structure_state.py
@@ -99,6 +99,8 @@ class StructureMaterialState(torch.nn.Module):
         Get element material constitutive state variables.
     update_converged_elements_state(self, is_copy=True)
         Update elements last converged material state variables.
+    reset_elements_state(self)
+        Reset elements material constitutive state variables.
     get_element_model_recurrency(self, element_id)
         Get element constitutive model recurrent structure.
     update_material_models_device(self, device_type)
@@ -533,6 +535,23 @@ class StructureMaterialState(torch.nn.Module):
         else:
             self._elements_state_old = dict(self._elements_state)
     # -------------------------------------------------------------------------
+    def reset_elements_state(self):
+        """Reset elements material constitutive state variables.
+
+        Elements current and last converged material constitutive state
+        variables are set as the initial (virgin) ones.
+        """
+        for element_id, constitutive_model in self._elements_material.items():
+            if self._elements_is_recurrent_material[element_id]:
+                element_state = None
+            else:
+                element_state = {
+                    gauss_id: constitutive_model.state_init()
+                    for gauss_id in self._elements_state[element_id].keys()}
+            self._elements_state[element_id] = element_state
+            self._elements_state_old[element_id] = \
+                copy.deepcopy(element_state)
+    # -------------------------------------------------------------------------
     def get_element_model_recurrency(self, element_id):
         """Get element constitutive model recurrent structure.
         
-- 
2.43.0


From 350338237eff98c15c052464eb8619f3611476a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:02 +0000
Subject: [PATCH 78/78] fix: Lou model update at hydrostatic stress

At a hydrostatic stress the deviatoric stress is made of round-off errors,
for which the radicand of the effective stress may be negative. The elastic
update by a volumetric strain increment was then flagged as a failure.
---
 .../simulators/fetorch/material/models/standard/lou.py       | 5 +++++
 src/hookeai/simulators/fetorch/material/models/vmap/lou.py   | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/lou.py b/src/hookeai/simulators/fetorch/material/models/standard/lou.py
index 95952c4..118b06b 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/lou.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/lou.py
@@ -946,6 +946,11 @@ class LouZhangYoon(ConstitutiveModel):
         """
         # Compute stress invariants
         i1, _, _, _, j2, j3 = self.get_stress_invariants(stress)
+        # Neglect deviatoric stress stemming from round-off (hydrostatic stress)
+        is_hydrostatic = 2.0*j2 <= torch.sum(
+            (10.0*torch.finfo(stress.dtype).eps*stress)**2)
+        j2 = torch.where(is_hydrostatic, torch.zeros_like(j2), j2)
+        j3 = torch.where(is_hydrostatic, torch.zeros_like(j3), j3)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute auxiliary terms
         w1 = yield_b*i1
diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/lou.py b/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
index ddc578c..8ae333c 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
@@ -740,6 +740,11 @@ class LouZhangYoonVMAP(ConstitutiveModel):
         """
         # Compute stress invariants
         i1, _, _, _, j2, j3 = cls.get_stress_invariants(stress)
+        # Neglect deviatoric stress stemming from round-off (hydrostatic stress)
+        is_hydrostatic = 2.0*j2 <= torch.sum(
+            (10.0*torch.finfo(stress.dtype).eps*stress)**2)
+        j2 = torch.where(is_hydrostatic, torch.zeros_like(j2), j2)
+        j3 = torch.where(is_hydrostatic, torch.zeros_like(j3), j3)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute auxiliary terms
         aux_1 = yield_b*i1
-- 
2.43.0

