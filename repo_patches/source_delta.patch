From b3e8e24df288882db25f838c488cc0b4fe1e9b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:26 +0000
Subject: [PATCH 01/29] fix: run each multi-job run from its own random state

Serial jobs were all configured (and seeded) before any of them ran, and
parallel jobs are forked (numba reinitializes its generator in the child),
so the seed of a job did not determine its result.
---
 pyDeltaRCM/preprocessor.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 9246836..cc1fdef 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -708,6 +708,12 @@ class _BaseJob(abc.ABC):
         self.deltamodel = DeltaModel(input_file=input_file, defer_output=defer_output)
         _curr_time = self.deltamodel._time
 
+        # keep the random state of this job, as it is after configuring the
+        #   model. The random number generator is shared by all models in a
+        #   process (and is reinitialized in any forked process), so it must
+        #   be set again before the job is run.
+        self._random_state = shared_tools.get_random_state()
+
         # process If
         if "If" in config_dict.keys():
             self._If = float(config_dict["If"])
@@ -789,6 +795,9 @@ class _SerialJob(_BaseJob):
         Iterate the timestep ``update`` routine for the specified number of
         iterations.
         """
+        # restore the random state for this job
+        shared_tools.set_random_state(self._random_state)
+
         # try to initialize and run the model
         try:
             # run the simulation
@@ -876,6 +885,9 @@ class _ParallelJob(_BaseJob, multiprocessing.Process):
 
         # overall wrapped in try to ensure sema is safely released
         try:
+            # restore the random state for this job
+            shared_tools.set_random_state(self._random_state)
+
             # try to initialize and run the model
             try:
                 # initialize the output files (defer_output=True above)
-- 
2.43.0


From 16f9c5324c191deebf073578f11e4ab3ddd06213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:27 +0000
Subject: [PATCH 02/29] fix: run exactly the specified number of timesteps

The end condition compared the accumulated model time with timesteps * dt,
and roundoff in the accumulation ran one extra timestep for many durations.
---
 pyDeltaRCM/preprocessor.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index cc1fdef..d84e414 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -730,6 +730,9 @@ class _BaseJob(abc.ABC):
             self._job_end_time = _curr_time + (
                 (config_dict["timesteps"] * self.deltamodel._dt)
             )
+            self._job_end_iter = (
+                self.deltamodel._time_iter + config_dict["timesteps"]
+            )
 
         elif "time" in config_dict.keys():
             # fill informational fields
@@ -754,6 +757,17 @@ class _BaseJob(abc.ABC):
                 "the input YAML file or via input arguments."
             )
 
+    def _is_finished(self) -> bool:
+        """Whether the job has reached the specified duration.
+
+        A number of timesteps is counted in timesteps, because the
+        accumulated model time is not exactly a multiple of the timestep.
+        """
+        if self._time_type == "timesteps":
+            return self.deltamodel._time_iter >= self._job_end_iter
+        else:
+            return self.deltamodel._time >= self._job_end_time
+
     @abc.abstractmethod
     def run(self):
         """Implementation to run the jobs as needed.
@@ -801,7 +815,7 @@ class _SerialJob(_BaseJob):
         # try to initialize and run the model
         try:
             # run the simulation
-            while self.deltamodel._time < self._job_end_time:
+            while not self._is_finished():
                 self.deltamodel.update()
 
         # if the model run fails
@@ -908,7 +922,7 @@ class _ParallelJob(_BaseJob, multiprocessing.Process):
                     self.deltamodel.output_checkpoint()
 
                 # run the simualtion
-                while self.deltamodel._time < self._job_end_time:
+                while not self._is_finished():
                     self.deltamodel.update()
 
             # if the model run fails
-- 
2.43.0


From 8a33f61d7afcea60a0186e9cda98c79195c15d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:27 +0000
Subject: [PATCH 03/29] fix: run duration arguments take precedence over the
 input file

For a single job, the input file was applied on top of the command line (or
Python API) arguments when running the job, so e.g. --timesteps was ignored
when the file specified timesteps as well.
---
 pyDeltaRCM/preprocessor.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index d84e414..173e230 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -38,6 +38,7 @@ class BasePreprocessor(abc.ABC):
     def __init__(self) -> None:
         """Initialize the base preprocessor."""
         self._input_file = None  # initialize empty
+        self._cli_dict = {}  # arguments given outside of the input file
 
         self._has_ensemble = False
         self._has_set = False
@@ -531,6 +532,20 @@ class BasePreprocessor(abc.ABC):
             # append to the file list
             self._file_list.append(ith_p)
 
+    def _get_job_config(self, i, job_yaml):
+        """Get the configuration of a single job.
+
+        The input file of the job is applied to the preprocessor
+        configuration. The files written in a multi-job expansion already
+        include the arguments; otherwise, arguments given on the command line
+        (or to the Python API) take precedence over the input file.
+        """
+        job_config = self.config_list[i].copy()
+        job_config.update(job_yaml)
+        if not (self._has_ensemble or self._has_set or self._has_matrix):
+            job_config.update(self._cli_dict)
+        return job_config
+
     def run_jobs(self, DeltaModel=None) -> None:
         """Run the set of jobs.
 
@@ -605,8 +620,7 @@ class BasePreprocessor(abc.ABC):
                 # apply job yaml to config dict
                 #   enables complex job setups, where configs are edited
                 #   between writing and .run_jobs()
-                job_config = self.config_list[i].copy()
-                job_config.update(job_yaml)
+                job_config = self._get_job_config(i, job_yaml)
 
                 # instantiate the job
                 p = _ParallelJob(
@@ -646,8 +660,7 @@ class BasePreprocessor(abc.ABC):
                 # apply job yaml to config dict
                 #   enables complex job setups, where configs are edited
                 #   between writing and .run_jobs()
-                job_config = self.config_list[i].copy()
-                job_config.update(job_yaml)
+                job_config = self._get_job_config(i, job_yaml)
 
                 p = _SerialJob(
                     i=i,
@@ -986,6 +999,7 @@ class PreprocessorCLI(BasePreprocessor):
 
         # process command line to a dictionary
         cli_dict = self.process_arguments()
+        self._cli_dict = cli_dict
 
         # process the input file to a dictionary (or empty if none)
         if cli_dict["config"] is not None:
@@ -1154,6 +1168,7 @@ class Preprocessor(BasePreprocessor):
 
         # process "command line" to a dict (already is)
         cli_dict = kwargs
+        self._cli_dict = cli_dict
 
         # process the input yaml file to a dict
         if input_file is None:
-- 
2.43.0


From 1efe0c51f2b6e3a0e467fd377ea5278fabe5b7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:38 +0000
Subject: [PATCH 04/29] fix: command line does not reset dryrun given in the
 input file

Without --dryrun on the command line, the default value of the flag replaced
a dryrun given in the configuration file, and the jobs were run.
---
 pyDeltaRCM/preprocessor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 173e230..98e3415 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -1111,6 +1111,9 @@ class PreprocessorCLI(BasePreprocessor):
         if args_dict["If"] is None:
             # if not given remove the key from cli spec
             args_dict.pop("If")
+        if args_dict["dryrun"] is False:
+            # if not given remove the key from cli spec
+            args_dict.pop("dryrun")
 
         return args_dict
 
-- 
2.43.0


From 9158d0f4ea70b6d8d7a426ea71f06a4461208c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:54 +0000
Subject: [PATCH 05/29] fix: accept an input file without any parameters

A YAML file that is empty, or has every line commented out, is loaded as None
and raised an unrelated error instead of using the default of every parameter.
---
 pyDeltaRCM/init_tools.py   | 3 ++-
 pyDeltaRCM/preprocessor.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 97c5407..b02ff37 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -113,7 +113,8 @@ class init_tools(abc.ABC):
         if self.input_file:
             try:
                 user_file = open(self.input_file, mode="r")
-                user_dict = yaml.load(user_file, Loader=loader)
+                # an empty (or entirely commented) file is loaded as None
+                user_dict = yaml.load(user_file, Loader=loader) or dict()
                 user_file.close()
             except ValueError as e:
                 raise e
diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 98e3415..c6b2474 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -202,7 +202,8 @@ class BasePreprocessor(abc.ABC):
 
             # open the file with the loader
             user_file = open(input_file, mode="r")
-            yaml_dict = yaml.load(user_file, Loader=loader)
+            #   note, an empty (or entirely commented) file is loaded as None
+            yaml_dict = yaml.load(user_file, Loader=loader) or {}
             user_file.close()
             return yaml_dict
 
-- 
2.43.0


From 4b05d59907f9fa8472a5961d17643a04b45539f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:54 +0000
Subject: [PATCH 06/29] fix: do not warn that the intermittency factor is
 unused

If is a run duration parameter of the configuration file like time and
time_years, but was reported as an unused key.
---
 pyDeltaRCM/init_tools.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index b02ff37..42573b6 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -189,7 +189,15 @@ class init_tools(abc.ABC):
         pp_only_kw = ["matrix", "ensemble", "set"]
         # remove special keywords from the dict of user YAML parameters
         # these are keywords related to time or matrix/set expansion
-        _no_list = ["timesteps", "time", "time_years", "config", "dryrun", "parallel"]
+        _no_list = [
+            "timesteps",
+            "time",
+            "time_years",
+            "If",
+            "config",
+            "dryrun",
+            "parallel",
+        ]
         _ = [user_dict.pop(key) for key in _no_list if key in user_dict.keys()]
         # identify unused parameters
         unused_user_keys = [
-- 
2.43.0


From 63874c2fbc6586eeee3c107fc3ab539b388ab79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:32 +0000
Subject: [PATCH 07/29] fix: accept null for parameters that may be unspecified

Parameters declared with the type None (seed, hb, stepmax, ...) rejected an
explicit null, which is also what multi-job expansions write for them. The
error message named the type of the key instead of the type of the value.
---
 pyDeltaRCM/init_tools.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 42573b6..0645d92 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -18,6 +18,14 @@ from . import sed_tools
 # tools for initiating deltaRCM model domain
 
 
+def _is_expected_type(value, expected_type) -> bool:
+    """Whether a value is one of a list of expected types.
+
+    A parameter that may be left unspecified lists `None` as an expected type.
+    """
+    return (type(value) in expected_type) or (value is None and None in expected_type)
+
+
 class init_tools(abc.ABC):
     def init_output_infrastructure(self) -> None:
         """Initialize the output infrastructure (folder and save lists).
@@ -138,14 +146,14 @@ class init_tools(abc.ABC):
         for k, v in default_dict.items():
             if k in user_dict:
                 expected_type = v["type"]
-                if type(user_dict[k]) in expected_type:
+                if _is_expected_type(user_dict[k], expected_type):
                     input_file_vars[k] = user_dict[k]
                 else:
                     raise TypeError(
                         f"Input for {str(k)} not of the "
                         f"right type in yaml configuration "
                         f"file {self.input_file}. "
-                        f"Input type was {type(k).__name__}, "
+                        f"Input type was {type(user_dict[k]).__name__}, "
                         f"but needs to be {expected_type}."
                     )
             else:
@@ -168,14 +176,14 @@ class init_tools(abc.ABC):
                 else:
                     expected_type = [eval(_v) for _v in v["type"]]
                 # evaluate against expected types
-                if type(user_dict[k]) in expected_type:
+                if _is_expected_type(user_dict[k], expected_type):
                     input_file_vars[k] = user_dict[k]
                 else:
                     raise TypeError(
                         f"Input for {str(k)} not of the "
                         f"right type in yaml configuration "
                         f"file {self.input_file}. "
-                        f"Input type was {type(k).__name__}, "
+                        f"Input type was {type(user_dict[k]).__name__}, "
                         f"but needs to be {expected_type}."
                     )
             else:
-- 
2.43.0


From 0c6d0cd58662608196dca956ee9fab39ed4db59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:08 +0000
Subject: [PATCH 08/29] fix: turning off velocity figures removes the velocity
 figure

The setter removed the sediment flux figure from the list of figures instead
(or raised a KeyError if there was none).
---
 pyDeltaRCM/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyDeltaRCM/model.py b/pyDeltaRCM/model.py
index 3101242..64c70fa 100644
--- a/pyDeltaRCM/model.py
+++ b/pyDeltaRCM/model.py
@@ -723,7 +723,7 @@ class DeltaModel(
         elif (save_velocity_figs is False) and (
             "velocity" in self._save_fig_list.keys()
         ):
-            del self._save_fig_list["sedflux"]
+            del self._save_fig_list["velocity"]
         self._save_velocity_figs = save_velocity_figs
 
     @property
-- 
2.43.0


From a7be616ff5e884eab3e3e73e68ef9d7d214d16d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:08 +0000
Subject: [PATCH 09/29] fix: keep the elapsed time since last save when
 resuming

The time was truncated to whole seconds when loading a checkpoint, while the
timestep is usually not a whole number of seconds, so a resumed run could save
at different timesteps than an uninterrupted run.
---
 pyDeltaRCM/init_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 0645d92..aa7eb8a 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -906,7 +906,7 @@ class init_tools(abc.ABC):
         self.H_SL = float(checkpoint["H_SL"])
         self._time_iter = int(checkpoint["time_iter"])
         self._save_iter = int(checkpoint["save_iter"])
-        self._save_time_since_data = int(checkpoint["save_time_since_data"])
+        self._save_time_since_data = float(checkpoint["save_time_since_data"])
 
         # load grids
         self.eta = checkpoint["eta"]
-- 
2.43.0


From 07b4a0b27668c4a1237658515439aaca1195d44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:29 +0000
Subject: [PATCH 10/29] fix: keep variable attributes in the output file when
 resuming

Resuming from a checkpoint copies the existing output file, but the units of
every variable were lost in the copy.
---
 pyDeltaRCM/init_tools.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index aa7eb8a..cf3d58e 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -990,15 +990,19 @@ class init_tools(abc.ABC):
                         dst.createGroup(name)
                         for vname, variable in src.groups[name].variables.items():
                             _mname = name + "/" + vname
-                            dst.createVariable(
+                            _v = dst.createVariable(
                                 _mname, variable.datatype, variable.dimensions
                             )
+                            _v.setncatts(variable.__dict__)
                             dst.groups[name].variables[vname][:] = src.groups[
                                 name
                             ].variables[vname][:]
                     # copy variables except ones to exclude
                     for name, variable in src.variables.items():
-                        dst.createVariable(name, variable.datatype, variable.dimensions)
+                        _v = dst.createVariable(
+                            name, variable.datatype, variable.dimensions
+                        )
+                        _v.setncatts(variable.__dict__)
                         dst.variables[name][:] = src.variables[name][:]
 
                 # set object attribute for model
-- 
2.43.0


From 9b15f085c7395753d265133b28fad53c9ff7f8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:29 +0000
Subject: [PATCH 11/29] fix: keep the output file until it is copied when
 resuming

The output file was renamed before copying it, so when loading a checkpoint was
interrupted, the next resume did not find any output file and started a new
one, without the data saved so far.
---
 pyDeltaRCM/init_tools.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index cf3d58e..206112e 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -958,11 +958,9 @@ class init_tools(abc.ABC):
                         "connections to the file before proceeding."
                     )
                 # if not open elsewhere, then proceed
-                # rename the old netCDF4 file
-                _msg = "Renaming old NetCDF4 output file"
-                self.log_info(_msg, verbosity=2)
-                _tmp_name = os.path.join(self.prefix, "old_pyDeltaRCM_output.nc")
-                os.rename(file_path, _tmp_name)
+                # copy into a new file, which then replaces the old file.
+                #   The old file is kept until the copy is complete.
+                _tmp_name = os.path.join(self.prefix, "new_pyDeltaRCM_output.nc")
 
                 # write dims / attributes / variables to new netCDF file
                 _msg = "Creating NetCDF4 output file"
@@ -973,8 +971,8 @@ class init_tools(abc.ABC):
                     self.init_metadata_list()
 
                 # copy data from old netCDF4 into new one
-                with Dataset(_tmp_name) as src, Dataset(
-                    file_path, "w", format="NETCDF4"
+                with Dataset(file_path) as src, Dataset(
+                    _tmp_name, "w", format="NETCDF4"
                 ) as dst:
                     # copy attributes
                     for name in src.ncattrs():
@@ -1005,14 +1003,16 @@ class init_tools(abc.ABC):
                         _v.setncatts(variable.__dict__)
                         dst.variables[name][:] = src.variables[name][:]
 
+                # replace the old netCDF4 file
+                _msg = "Renaming old NetCDF4 output file"
+                self.log_info(_msg, verbosity=2)
+                os.replace(_tmp_name, file_path)
+
                 # set object attribute for model
                 self.output_netcdf = Dataset(file_path, "r+", format="NETCDF4")
 
                 # synch netcdf file
                 self.output_netcdf.sync()
 
-                # delete old netCDF4 file
-                os.remove(_tmp_name)
-
         _msg = "Successfully loaded checkpoint."
         self.log_info(_msg, verbosity=1)
-- 
2.43.0


From 4cbba491ca8208b5edcc158535a10b1e8868094f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:29 +0000
Subject: [PATCH 12/29] fix: replace the checkpoint only with a complete
 checkpoint

The checkpoint file was rewritten in place, so a run that was stopped while
saving left no checkpoint to resume from.
---
 pyDeltaRCM/iteration_tools.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyDeltaRCM/iteration_tools.py b/pyDeltaRCM/iteration_tools.py
index 6e51731..7c06997 100644
--- a/pyDeltaRCM/iteration_tools.py
+++ b/pyDeltaRCM/iteration_tools.py
@@ -461,6 +461,9 @@ class iteration_tools(abc.ABC):
         `checkpoint_dt` has not been explicitly defined.
         """
         ckp_file = os.path.join(self.prefix, "checkpoint.npz")
+        # write to a temporary file, to keep the previous checkpoint until the
+        #   new checkpoint is complete
+        tmp_file = os.path.join(self.prefix, "checkpoint_tmp.npz")
 
         # get rng state
         rng_state_list = shared_tools.get_random_state()
@@ -469,7 +472,7 @@ class iteration_tools(abc.ABC):
         )  # convert to object before saving
 
         np.savez_compressed(
-            ckp_file,
+            tmp_file,
             # time and counter variables
             time=self.time,
             time_iter=self._time_iter,
@@ -491,3 +494,4 @@ class iteration_tools(abc.ABC):
             H_SL=self._H_SL,
             rng_state=rng_state,
         )
+        os.replace(tmp_file, ckp_file)
-- 
2.43.0


From 6de6b624f0653bca08fa3c847afc92441a9a46a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:40 +0000
Subject: [PATCH 13/29] fix: list the parameters of each set under the right
 column

The table of job parameters is headed by the keys of the first set, but values
were listed in the order of the keys of each set, which may be different.
---
 pyDeltaRCM/preprocessor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index c6b2474..f29dec4 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -380,7 +380,10 @@ class BasePreprocessor(abc.ABC):
             ith_config["out_dir"] = ith_dir
 
             # loop through each var of this job
-            for j, (key, val) in enumerate(_set[i].items()):
+            #   note, columns are in the order of keys of the first set
+            for j, key in enumerate(_set[0].keys()):
+                val = _set[i][key]
+
                 # write info into fixed config dict
                 ith_config[key] = val
 
-- 
2.43.0


From 86707a2dcb01b679478c20a2e5c02d9063994f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:59 +0000
Subject: [PATCH 14/29] fix: sediment parcels never leave the domain upstream
 of the inlet

When every downstream neighbor of an inlet cell was dry, a parcel could walk
to the padding upstream of the first row, and then changed the bed on the
opposite (last) row of the domain.
---
 pyDeltaRCM/sed_tools.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyDeltaRCM/sed_tools.py b/pyDeltaRCM/sed_tools.py
index a545be1..d650574 100644
--- a/pyDeltaRCM/sed_tools.py
+++ b/pyDeltaRCM/sed_tools.py
@@ -266,6 +266,9 @@ def _get_weight_at_cell_sediment(
     """
     dry = depth_nbrs <= dry_depth
     wall = ct_nbrs == -2
+    if ind[0] == 0:
+        # cells upstream of the inlet are outside of the domain
+        wall[:3] = True
     ctr = np.arange(9) == 4
     drywall = np.logical_or(dry, wall)
 
-- 
2.43.0


From 0f9ee8bfd3a3fceb5cf6f883dc43334792fad768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:15 +0000
Subject: [PATCH 15/29] fix: do not relocate a looped parcel without a
 transport vector

The relocation of a looped parcel at the origin of the transport vector used
the location computed for another parcel (or an undefined location).
---
 pyDeltaRCM/water_tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyDeltaRCM/water_tools.py b/pyDeltaRCM/water_tools.py
index 786b4bb..73fafe6 100644
--- a/pyDeltaRCM/water_tools.py
+++ b/pyDeltaRCM/water_tools.py
@@ -974,6 +974,7 @@ def _check_for_loops(
                     Fw = np.sqrt(Fx**2 + Fy**2)
 
                     # relocate the parcel along mean-transport vector
+                    px, py = px0, py0
                     if Fw != 0:
                         px = px0 + int(np.round(Fx / Fw * 5.0))
                         py = py0 + int(np.round(Fy / Fw * 5.0))
-- 
2.43.0


From 4e6e29d97b831ef899979a7878af453d9f3b5050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:15 +0000
Subject: [PATCH 16/29] fix: index conversion rejects every index out of array
 bounds

The bounds check of custom_ravel and custom_unravel accepted an index one past
the end of the array (and returned a location outside of the array).
---
 pyDeltaRCM/shared_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyDeltaRCM/shared_tools.py b/pyDeltaRCM/shared_tools.py
index 8afb406..27abd9c 100644
--- a/pyDeltaRCM/shared_tools.py
+++ b/pyDeltaRCM/shared_tools.py
@@ -281,7 +281,7 @@ def custom_unravel(i: int, shape: Tuple[int, int]) -> Tuple[int, int]:
         >>> custom_unravel(5124, _shape)
         (25, 124)
     """
-    if i > (shape[1] * shape[0]):
+    if i >= (shape[1] * shape[0]):
         raise IndexError("Index is out of array bounds")
     x = i // shape[1]
     y = i % shape[1]
@@ -327,7 +327,7 @@ def custom_ravel(tup: Tuple[int, int], shape: Tuple[int, int]) -> int:
         >>> custom_ravel((25, 124), _shape)
         5124
     """
-    if tup[0] > shape[0] or tup[1] > shape[1]:
+    if tup[0] >= shape[0] or tup[1] >= shape[1]:
         raise IndexError("Index is out of array bounds")
     x = tup[0] * shape[1]
     y = tup[1]
-- 
2.43.0


From 087ab04caa8d2727ea3959a3ed16def85256ac42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:15 +0000
Subject: [PATCH 17/29] fix: flood dry cells from the stage of wet neighbors
 only

Dry neighbors were given a stage of zero in the flooding correction, so for a
sea level below zero, a dry cell along the shore was flooded up to elevation
zero.
---
 pyDeltaRCM/water_tools.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyDeltaRCM/water_tools.py b/pyDeltaRCM/water_tools.py
index 73fafe6..d7c998b 100644
--- a/pyDeltaRCM/water_tools.py
+++ b/pyDeltaRCM/water_tools.py
@@ -543,15 +543,16 @@ class water_tools(abc.ABC):
         # indices of dry cells with wet neighbors
         shore_ind = np.where(wet_mask_nh_sum > 0)
 
-        stage_nhs = self.build_weight_array(self.stage)
+        stage_nhs = self.build_weight_array(self.stage, fix_edges=True)
         eta_shore = self.eta[shore_ind]
 
         for i in range(len(shore_ind[0])):
-            # pretends dry neighbor cells have stage zero
+            # pretends dry neighbor cells have no water surface
             #    so they cannot be > eta_shore[i]
-            stage_nh = (
-                wet_mask_nh[:, shore_ind[0][i], shore_ind[1][i]]
-                * stage_nhs[:, shore_ind[0][i], shore_ind[1][i]]
+            stage_nh = np.where(
+                wet_mask_nh[:, shore_ind[0][i], shore_ind[1][i]] > 0,
+                stage_nhs[:, shore_ind[0][i], shore_ind[1][i]],
+                -np.inf,
             )
 
             if (stage_nh > eta_shore[i]).any():
-- 
2.43.0


From 586160b401f73dfbd98cb065d9bc3c2508b27ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:39 +0000
Subject: [PATCH 18/29] fix: updating the bedload fraction reinitializes
 sediment routers

The transport capacity for sand depends on the bedload fraction, and was left
at the value for the previous bedload fraction.
---
 pyDeltaRCM/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyDeltaRCM/model.py b/pyDeltaRCM/model.py
index 64c70fa..5369515 100644
--- a/pyDeltaRCM/model.py
+++ b/pyDeltaRCM/model.py
@@ -1488,6 +1488,7 @@ class DeltaModel(
     @bedload_fraction.setter
     def bedload_fraction(self, new_u0: float) -> None:
         self.f_bedload = new_u0
+        self.init_sediment_routers()
 
     @property
     def influx_sediment_concentration(self) -> float:
-- 
2.43.0


From d72d5dfe53bd84d2c4908954cdf63d179ee7b4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:39 +0000
Subject: [PATCH 19/29] fix: maintain the subsidence rate when boundary
 conditions change

Subsidence is applied per timestep, and the timestep changes with the inlet
velocity, width, depth, and sediment concentration; but the subsidence per
timestep was only scaled when setting the timestep itself.
---
 pyDeltaRCM/model.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/pyDeltaRCM/model.py b/pyDeltaRCM/model.py
index 5369515..c44a0c5 100644
--- a/pyDeltaRCM/model.py
+++ b/pyDeltaRCM/model.py
@@ -1421,6 +1421,18 @@ class DeltaModel(
         """Number of times data has been saved."""
         return self._save_iter
 
+    def _update_boundary_conditions(self) -> None:
+        """Update the model after changing a boundary condition.
+
+        The timestep may change with the boundary condition, so the
+        subsidence per timestep is scaled to maintain the subsidence rate.
+        """
+        old_dt = self._dt
+        self.create_boundary_conditions()
+        if self.toggle_subsidence and self._dt != old_dt:
+            self.sigma = (self.sigma / old_dt) * self._dt
+        self.init_sediment_routers()
+
     @property
     def channel_flow_velocity(self) -> float:
         """Get channel flow velocity."""
@@ -1429,8 +1441,7 @@ class DeltaModel(
     @channel_flow_velocity.setter
     def channel_flow_velocity(self, new_u0: float) -> None:
         self.u0 = new_u0
-        self.create_boundary_conditions()
-        self.init_sediment_routers()
+        self._update_boundary_conditions()
 
     @property
     def channel_width(self) -> float:
@@ -1440,8 +1451,7 @@ class DeltaModel(
     @channel_width.setter
     def channel_width(self, new_N0_meters: float) -> None:
         self.N0_meters = new_N0_meters
-        self.create_boundary_conditions()
-        self.init_sediment_routers()
+        self._update_boundary_conditions()
         if self.channel_width != new_N0_meters:
             warnings.warn(
                 UserWarning(
@@ -1459,8 +1469,7 @@ class DeltaModel(
     @channel_flow_depth.setter
     def channel_flow_depth(self, new_d) -> None:
         self.h0 = new_d
-        self.create_boundary_conditions()
-        self.init_sediment_routers()
+        self._update_boundary_conditions()
 
     @property
     def sea_surface_mean_elevation(self) -> float:
@@ -1498,8 +1507,7 @@ class DeltaModel(
     @influx_sediment_concentration.setter
     def influx_sediment_concentration(self, new_C0: float) -> None:
         self.C0_percent = new_C0 * 100
-        self.create_boundary_conditions()
-        self.init_sediment_routers()
+        self._update_boundary_conditions()
 
     @property
     def sea_surface_elevation(self):
-- 
2.43.0


From 61c150049b8ce38d65517e755cb6c0fb79c28a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:39 +0000
Subject: [PATCH 20/29] fix: quote strings in the configuration written for
 each job

Strings were written without quotes, so values such as 'yes', '10', or a path
with ' #' were not read as the same string from the job configuration file.
---
 pyDeltaRCM/preprocessor.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index f29dec4..e03b339 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -1,6 +1,7 @@
 import abc
 import argparse
 import itertools
+import json
 import multiprocessing
 import os
 import platform
@@ -1225,10 +1226,21 @@ def _write_yaml_config_to_file(_config, _path) -> None:
         well. Please do not move.
     """
 
+    def _is_plain_string(varvalue):
+        """Whether a string is read as the same string, without quotes."""
+        loader = shared_tools.custom_yaml_loader()
+        try:
+            return yaml.load("key: " + varvalue, Loader=loader) == {"key": varvalue}
+        except yaml.YAMLError:
+            return False
+
     def _write_parameter_to_file(f, varname, varvalue):
         """Write each line, formatted."""
         if varvalue is None:
             f.write(varname + ": " + "null" + "\n")
+        elif isinstance(varvalue, (str, Path)) and not _is_plain_string(str(varvalue)):
+            # quote, so that the value is read as the same string
+            f.write(varname + ": " + json.dumps(str(varvalue)) + "\n")
         else:
             f.write(varname + ": " + str(varvalue) + "\n")
 
-- 
2.43.0


From 60458986b368dbe8da06bf29214f370dba71880e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:39 +0000
Subject: [PATCH 21/29] fix: water parcels without wet neighbors walk to a
 neighbor

When there were no wet neighbors, a parcel could choose not to move (which
ends the walk within the domain), or to leave the domain upstream of the inlet.
---
 pyDeltaRCM/water_tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyDeltaRCM/water_tools.py b/pyDeltaRCM/water_tools.py
index d7c998b..e5ba57a 100644
--- a/pyDeltaRCM/water_tools.py
+++ b/pyDeltaRCM/water_tools.py
@@ -686,10 +686,10 @@ def _get_weight_at_cell_water(
                 # no wet (and valid) neighbors. How did we get here??
                 #    Maybe by flooding corrections? Solution is to
                 #    allow to walk into any non-land cell, true random
-                nnotwall = np.sum(~wall)
+                nvalid = np.sum(~invalid)
                 weight[:] = 0
-                if nnotwall > 0:
-                    weight[~wall] = 1 / nnotwall
+                if nvalid > 0:
+                    weight[~invalid] = 1 / nvalid
                 else:
                     raise RuntimeError(
                         "No non-wall cells surrounding cell. " "Please report error."
-- 
2.43.0


From e0f408e3f3c3ad5385e782bea3b7d5369bfad612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:11 +0000
Subject: [PATCH 22/29] fix: keep saving custom variables when resuming

---
 pyDeltaRCM/init_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 206112e..064723e 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -966,7 +966,8 @@ class init_tools(abc.ABC):
                 _msg = "Creating NetCDF4 output file"
                 self.log_info(_msg, verbosity=2)
 
-                # populate default metadata list
+                # populate custom save lists and default metadata list
+                self.hook_init_output_file()
                 if self._save_metadata:
                     self.init_metadata_list()
 
-- 
2.43.0


From 1e48759b7e92a72bb28da6e2adaa9e9bc3d982c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:04 +0000
Subject: [PATCH 23/29] fix: write nested values of job files so that they read
 back

---
 pyDeltaRCM/preprocessor.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index e03b339..8a4c956 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -1234,6 +1234,23 @@ def _write_yaml_config_to_file(_config, _path) -> None:
         except yaml.YAMLError:
             return False
 
+    def _format_nested(varvalue):
+        """Format a value inside of a list or dictionary."""
+        if varvalue is None:
+            return "null"
+        elif isinstance(varvalue, (str, Path)):
+            return json.dumps(str(varvalue))
+        elif isinstance(varvalue, (list, tuple)):
+            return "[" + ", ".join([_format_nested(v) for v in varvalue]) + "]"
+        elif isinstance(varvalue, dict):
+            _items = [
+                _format_nested(k) + ": " + _format_nested(v)
+                for k, v in varvalue.items()
+            ]
+            return "{" + ", ".join(_items) + "}"
+        else:
+            return str(varvalue)
+
     def _write_parameter_to_file(f, varname, varvalue):
         """Write each line, formatted."""
         if varvalue is None:
@@ -1241,6 +1258,8 @@ def _write_yaml_config_to_file(_config, _path) -> None:
         elif isinstance(varvalue, (str, Path)) and not _is_plain_string(str(varvalue)):
             # quote, so that the value is read as the same string
             f.write(varname + ": " + json.dumps(str(varvalue)) + "\n")
+        elif isinstance(varvalue, (list, tuple, dict)):
+            f.write(varname + ": " + _format_nested(varvalue) + "\n")
         else:
             f.write(varname + ": " + str(varvalue) + "\n")
 
-- 
2.43.0


From d88df54fa266c3da327e943d2a96dcb26b98b914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:32 +0000
Subject: [PATCH 24/29] fix: replace job files when jobs are resumed

---
 pyDeltaRCM/preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index 8a4c956..cda6201 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -1263,7 +1263,7 @@ def _write_yaml_config_to_file(_config, _path) -> None:
         else:
             f.write(varname + ": " + str(varvalue) + "\n")
 
-    f = open(_path, "a")
+    f = open(_path, "w")
     for k in _config.keys():
         _write_parameter_to_file(f, k, _config[k])
     f.close()
-- 
2.43.0


From ee1c9614321c0f18dfcc317516fc1b4d6697b91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:04 +0000
Subject: [PATCH 25/29] fix: use the current erosion modifier of the model

---
 pyDeltaRCM/sed_tools.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyDeltaRCM/sed_tools.py b/pyDeltaRCM/sed_tools.py
index d650574..346de05 100644
--- a/pyDeltaRCM/sed_tools.py
+++ b/pyDeltaRCM/sed_tools.py
@@ -127,6 +127,8 @@ class sed_tools(abc.ABC):
         _msg = "Supplying model state to SandRouter for iteration"
         self.log_info(_msg, verbosity=2)
 
+        # the array may have been replaced since the router was initialized
+        self._sr.mod_erosion = self.mod_erosion
         self._sr.run(
             start_indices,
             self.eta,
@@ -195,6 +197,8 @@ class sed_tools(abc.ABC):
         _msg = "Supplying model state to MudRouter for iteration"
         self.log_info(_msg, verbosity=2)
 
+        # the array may have been replaced since the router was initialized
+        self._mr.mod_erosion = self.mod_erosion
         self._mr.run(
             start_indices,
             self.eta,
-- 
2.43.0


From 98ca6262581417b979254e1ceaf8724cbe52b729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:03 +0000
Subject: [PATCH 26/29] fix: show lines given as a list of indices or of tuples

---
 pyDeltaRCM/debug_tools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyDeltaRCM/debug_tools.py b/pyDeltaRCM/debug_tools.py
index 95c3832..e61248e 100644
--- a/pyDeltaRCM/debug_tools.py
+++ b/pyDeltaRCM/debug_tools.py
@@ -172,12 +172,15 @@ class debug_tools(abc.ABC):
 
         """
         _shape = self.depth.shape
+        if isinstance(ind, list) and not isinstance(ind[0], np.ndarray):
+            ind = np.array(ind)  # list of flat indices or of tuples
         if isinstance(ind, list):
+            lines = []
             for _, iind in enumerate(ind):
                 _l = plot_line(
                     iind.flatten(), shape=_shape, nozeros=nozeros, *args, **kwargs
                 )
-                lines = [_l]
+                lines.append(_l)
         elif isinstance(ind, np.ndarray):
             if ind.ndim > 2:
                 raise NotImplementedError("Not implemented for arrays > 2d.")
-- 
2.43.0


From 88819c34a72861b537a52703b8cf6aba3461a184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:53 +0000
Subject: [PATCH 27/29] fix: let parcels take fewer than four steps

With a step limit (stepmax) below four the record of the walks of water
parcels had no room for the first steps and the first time step failed with
an IndexError.
---
 pyDeltaRCM/init_tools.py  | 2 +-
 pyDeltaRCM/water_tools.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index 064723e..d494475 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -464,7 +464,7 @@ class init_tools(abc.ABC):
             self.stepmax = int(self.stepmax)
 
         # initial width of self.free_surf_walk_indices
-        self.size_indices = int(self.stepmax / 2)
+        self.size_indices = max(1, int(self.stepmax / 2))
 
         self._dt = self.dVs / self.Qs0  # time step size
 
diff --git a/pyDeltaRCM/water_tools.py b/pyDeltaRCM/water_tools.py
index e5ba57a..f8d9c70 100644
--- a/pyDeltaRCM/water_tools.py
+++ b/pyDeltaRCM/water_tools.py
@@ -357,7 +357,7 @@ class water_tools(abc.ABC):
             self.log_info(_msg, verbosity=2)
 
             indices_blank = np.zeros(
-                (int(self._Np_water), int(self.stepmax / 4)), dtype=int
+                (int(self._Np_water), max(1, int(self.stepmax / 4))), dtype=int
             )
 
             self.free_surf_walk_inds = np.hstack(
-- 
2.43.0


From 705acc2323589f3e7328fd19065ce8c9e4514f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:54 +0000
Subject: [PATCH 28/29] fix: leave no frame in a new output file before one is
 saved

---
 pyDeltaRCM/init_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyDeltaRCM/init_tools.py b/pyDeltaRCM/init_tools.py
index d494475..a54e38d 100644
--- a/pyDeltaRCM/init_tools.py
+++ b/pyDeltaRCM/init_tools.py
@@ -747,7 +747,8 @@ class init_tools(abc.ABC):
                     "meta/" + varname, vartype, vardims
                 )
                 _v.units = varunits
-                _v[:] = varvalue
+                if varvalue is not None:
+                    _v[:] = varvalue
 
             self.output_netcdf.createGroup("meta")
             for _val in self._save_var_list["meta"].keys():
-- 
2.43.0


From c3ae0f5243b73fe04b69a6003e88c1ad14a02008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:17 +0000
Subject: [PATCH 29/29] fix: read the messages of parallel jobs while waiting
 for them to end

---
 pyDeltaRCM/preprocessor.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyDeltaRCM/preprocessor.py b/pyDeltaRCM/preprocessor.py
index cda6201..b6ffcdc 100644
--- a/pyDeltaRCM/preprocessor.py
+++ b/pyDeltaRCM/preprocessor.py
@@ -640,13 +640,20 @@ class BasePreprocessor(abc.ABC):
                 p.start()
 
             # join processes to prevent ending the jobs before moving forward
+            #   note, a process does not end before its messages are read
+            messages = []
             for i in self._job_list:
-                i.join()
+                i.join(timeout=0.1)
+                while i.exitcode is None:
+                    while not q.empty():
+                        messages.append(q.get())
+                    i.join(timeout=0.1)
 
             # read from the queue and report (asynchronous...buggy...)
             time.sleep(1)
             while not q.empty():
-                gotq = q.get()
+                messages.append(q.get())
+            for gotq in messages:
                 if gotq["code"] == 1:
                     print("Job {job} ended in error:\n {msg}".format_map(gotq))
                 else:
-- 
2.43.0

