From 0ef56a97dde9f6b2d847d9d72a3900e47661b070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:23 +0000
Subject: [PATCH 01/13] fix: never leave a partial download in the model cache

urlretrieve wrote directly to the final file, so that a failed or killed
download left a partial file that was taken for the model ever after, and a
concurrent load could read a file still being written.
---
 torchiva/loader.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/torchiva/loader.py b/torchiva/loader.py
index 45fca96..0895d44 100644
--- a/torchiva/loader.py
+++ b/torchiva/loader.py
@@ -1,4 +1,5 @@
 import os
+import tempfile
 from pathlib import Path
 from typing import Union, Optional
 
@@ -24,6 +25,22 @@ def urljoin(part1, part2):
     return "/".join([part1.strip("/"), part2])
 
 
+def download_file(url, path):
+    """
+    Downloads to a temporary file first so that ``path`` only ever exists with
+    its complete content, even if the download fails or is interrupted, or if
+    several processes download the same file at the same time
+    """
+    fd, tmp_fn = tempfile.mkstemp(prefix=path.name + ".", suffix=".part", dir=path.parent)
+    os.close(fd)
+    try:
+        urlretrieve(url, filename=tmp_fn)
+        os.replace(tmp_fn, path)
+    except BaseException:
+        os.unlink(tmp_fn)
+        raise
+
+
 def get_model_from_url(url):
     path = Path(url)
     model_name = path.name
@@ -40,7 +57,7 @@ def get_model_from_url(url):
 
     for fn, url in ((ckpt_fn, ckpt_url), (yaml_fn, yaml_url)):
         if not fn.exists():
-            urlretrieve(url, filename=fn)
+            download_file(url, fn)
 
     return ckpt_fn, yaml_fn
 
-- 
2.43.0


From 576034c741917bebbf3006d45add51484180ea1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:40 +0000
Subject: [PATCH 02/13] fix: cache models of different URLs in different
 folders

The cache folder was chosen by the last component of the URL only, so that
the model of one URL was returned for another URL with the same ending.
---
 torchiva/loader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/torchiva/loader.py b/torchiva/loader.py
index 0895d44..5d0fa56 100644
--- a/torchiva/loader.py
+++ b/torchiva/loader.py
@@ -1,3 +1,4 @@
+import hashlib
 import os
 import tempfile
 from pathlib import Path
@@ -50,7 +51,10 @@ def get_model_from_url(url):
     print(yaml_url)
     print(ckpt_url)
 
-    model_path = Path.home() / f".torchiva_models/{model_name}"
+    # different URLs may end with the same name
+    url_hash = hashlib.sha256(url.strip("/").encode()).hexdigest()[:16]
+
+    model_path = Path.home() / f".torchiva_models/{model_name}-{url_hash}"
     ckpt_fn, yaml_fn = get_model_filenames(model_path)
 
     ckpt_fn.parent.mkdir(exist_ok=True, parents=True)
-- 
2.43.0


From 83f2694dfe0db38283b1bc8ed9094bd3e8da4a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:14 +0000
Subject: [PATCH 03/13] fix: give every separated file its own output

Files with the same name in different sub-folders overwrote each other's
output, and outputs written below the input folder were separated again. The
folder structure is now reproduced below the output folder, and the inputs
are listed before anything is written.
---
 torchiva/separate.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index e134e04..bbad34d 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -65,6 +65,23 @@ def separate_one_file(separator, path_in, path_out, n_src, n_chan, device):
     torchaudio.save(path_out, y, fs)
 
 
+def list_files(folder_in, folder_out):
+    """
+    Lists all wav files below the input folder together with their outputs.
+    When the output folder is below the input folder, its files are not inputs.
+    """
+    root_in, root_out = folder_in.resolve(), folder_out.resolve()
+    paths_in = sorted(folder_in.rglob("*.wav"))
+    if root_in in root_out.parents:
+        paths_in = [
+            p for p in paths_in if root_out not in (p.parent.resolve() / p.name).parents
+        ]
+
+    paths_out = [folder_out / p.relative_to(folder_in) for p in paths_in]
+
+    return list(zip(paths_in, paths_out))
+
+
 def device_type(device):
     if device.isnumeric():
         return f"cuda:{device}"
@@ -217,8 +234,8 @@ def main(args):
         if args.output == args.input:
             raise ValueError("Input and output should be different folders")
 
-        for path_in in args.input.rglob("*.wav"):
-            path_out = args.output / path_in.name
+        for path_in, path_out in list_files(args.input, args.output):
+            path_out.parent.mkdir(exist_ok=True, parents=True)
             separate_one_file(
                 separator, path_in, path_out, args.src, args.mic, args.device
             )
-- 
2.43.0


From 6c36907a988620090c7f6f1153194d72659a1eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:14 +0000
Subject: [PATCH 04/13] fix: never overwrite the input files of a separation

The input was overwritten when the output folder contained the input file,
or when input and output were spelled differently or linked.
---
 torchiva/separate.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index bbad34d..f1fe9da 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -65,6 +65,16 @@ def separate_one_file(separator, path_in, path_out, n_src, n_chan, device):
     torchaudio.save(path_out, y, fs)
 
 
+def check_not_overwriting(paths_in, paths_out):
+    inputs = [p.stat() for p in paths_in]
+    inputs = {(s.st_dev, s.st_ino) for s in inputs}
+    for path_out in paths_out:
+        if path_out.exists():
+            s = path_out.stat()
+            if (s.st_dev, s.st_ino) in inputs:
+                raise ValueError(f"The output {path_out} is one of the input files")
+
+
 def list_files(folder_in, folder_out):
     """
     Lists all wav files below the input folder together with their outputs.
@@ -78,6 +88,7 @@ def list_files(folder_in, folder_out):
         ]
 
     paths_out = [folder_out / p.relative_to(folder_in) for p in paths_in]
+    check_not_overwriting(paths_in, paths_out)
 
     return list(zip(paths_in, paths_out))
 
@@ -231,7 +242,7 @@ def main(args):
         args.output.mkdir(exist_ok=True, parents=True)
         if not args.output.is_dir():
             raise ValueError(f"{args.output} is not a folder")
-        if args.output == args.input:
+        if args.output.samefile(args.input):
             raise ValueError("Input and output should be different folders")
 
         for path_in, path_out in list_files(args.input, args.output):
@@ -252,8 +263,7 @@ def main(args):
         else:
             path_out = args.output
 
-        if args.output == args.input:
-            raise ValueError("Input and output should be different files")
+        check_not_overwriting([args.input], [path_out])
 
         separate_one_file(
             separator, args.input, path_out, args.src, args.mic, args.device
-- 
2.43.0


From 750b90bca8ddb9eba4270c08f6930c940344adc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:14 +0000
Subject: [PATCH 05/13] fix: separate in inference mode

The separator was left in training mode, so that dropout and batch statistics
made the output random and dependent on the other files.
---
 torchiva/separate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index f1fe9da..9900623 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -237,6 +237,7 @@ def main(args):
 
     if args.device is not None:
         separator = separator.to(args.device)
+    separator.eval()
 
     if args.input.is_dir():
         args.output.mkdir(exist_ok=True, parents=True)
-- 
2.43.0


From e1f2ea40d2f4c8eeed3cecf12b546c751c783a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:14 +0000
Subject: [PATCH 06/13] fix: select the requested number of sources

The name ref is not defined there; any algorithm that returns more sources than
requested failed.
---
 torchiva/separate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 9900623..b96f5e6 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -53,7 +53,7 @@ def separate_one_file(separator, path_in, path_out, n_src, n_chan, device):
         # if args.n_src > n_ref, select most energetic n_ref sources
         if y.shape[-2] > n_src:
             y = torchiva.select_most_energetic(
-                y, num=ref.shape[-2], dim=-2, dim_reduc=-1
+                y, num=n_src, dim=-2, dim_reduc=-1
             )
 
         # make same size as input
-- 
2.43.0


From 27c9ffd72ef33e5667d0f5bc8a24b66fae14e86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:15 +0000
Subject: [PATCH 07/13] fix: separate all the channels kept by --mic

Only the first --src channels were given to the separator, so that e.g. FIVE
worked on a single channel.
---
 torchiva/separate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index b96f5e6..2c75372 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -48,7 +48,7 @@ def separate_one_file(separator, path_in, path_out, n_src, n_chan, device):
         mix = mix[..., :n_chan, :]
 
     with torch.no_grad():
-        y = separator(mix[..., :n_src, :])
+        y = separator(mix)
 
         # if args.n_src > n_ref, select most energetic n_ref sources
         if y.shape[-2] > n_src:
-- 
2.43.0


From dea63148a842237faa9ead00e7426f9b00ffa3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:15 +0000
Subject: [PATCH 08/13] fix: use --n_iter with all source models

The option was ignored except for neural models.
---
 torchiva/separate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index 2c75372..d492285 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -223,6 +223,7 @@ def main(args):
 
         separator = torchiva.nn.BSSSeparator(
             n_fft=args.nfft,
+            n_iter=args.n_iter,
             hop_length=args.hop,
             window=args.win,
             n_taps=args.taps,
-- 
2.43.0


From 8b66183bbc44e19db711b85eb5c91c4c9d70477a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:15 +0000
Subject: [PATCH 09/13] fix: reset the source model for every new signal in WPE

All other algorithms do so; with a stateful model such as NMF, the state of the
previous signal was used for the next one.
---
 torchiva/wpe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torchiva/wpe.py b/torchiva/wpe.py
index e710278..5d606b5 100644
--- a/torchiva/wpe.py
+++ b/torchiva/wpe.py
@@ -151,6 +151,9 @@ class WPE(DRBSSBase):
             eps=eps,
         )
 
+        # initialize source model if NMF
+        self._reset(model)
+
         batch_shape = X.shape[:-3]
         n_chan, n_freq, n_frames = X.shape[-3:]
 
-- 
2.43.0


From dc4171a241f85a312db26c0934fcbdc92b26c9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:13 +0000
Subject: [PATCH 10/13] fix: do not keep an empty download in the model cache

When the connection is closed within the headers of the response, urlretrieve
returns without an error and leaves an empty file, which was taken for the
model ever after.
---
 torchiva/loader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/torchiva/loader.py b/torchiva/loader.py
index 5d0fa56..ed20fc9 100644
--- a/torchiva/loader.py
+++ b/torchiva/loader.py
@@ -36,6 +36,9 @@ def download_file(url, path):
     os.close(fd)
     try:
         urlretrieve(url, filename=tmp_fn)
+        if os.path.getsize(tmp_fn) == 0:
+            # e.g. the connection was closed before the end of the headers
+            raise OSError(f"The content of {url} could not be retrieved")
         os.replace(tmp_fn, path)
     except BaseException:
         os.unlink(tmp_fn)
-- 
2.43.0


From 1b1278139169390257d092402364a57ee5364579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:42 +0000
Subject: [PATCH 11/13] fix: fail when a folder of recordings cannot be listed

Path.rglob silently skips the folders that cannot be read, so that their files
were not separated and the command still succeeded.
---
 torchiva/separate.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/torchiva/separate.py b/torchiva/separate.py
index d492285..11b0da7 100644
--- a/torchiva/separate.py
+++ b/torchiva/separate.py
@@ -20,6 +20,7 @@
 
 import argparse
 import json
+import os
 import warnings
 from pathlib import Path
 
@@ -75,13 +76,26 @@ def check_not_overwriting(paths_in, paths_out):
                 raise ValueError(f"The output {path_out} is one of the input files")
 
 
+def find_wav_files(folder):
+    def fail(error):
+        # do not silently skip folders that cannot be listed
+        raise error
+
+    return sorted(
+        Path(root) / name
+        for root, _, names in os.walk(folder, onerror=fail)
+        for name in names
+        if name.endswith(".wav")
+    )
+
+
 def list_files(folder_in, folder_out):
     """
     Lists all wav files below the input folder together with their outputs.
     When the output folder is below the input folder, its files are not inputs.
     """
     root_in, root_out = folder_in.resolve(), folder_out.resolve()
-    paths_in = sorted(folder_in.rglob("*.wav"))
+    paths_in = find_wav_files(folder_in)
     if root_in in root_out.parents:
         paths_in = [
             p for p in paths_in if root_out not in (p.parent.resolve() / p.name).parents
-- 
2.43.0


From 1bd84d62b03564f8f6163eea408d01933099af6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:00 +0000
Subject: [PATCH 12/13] fix: use the same dropout mask in the forward and
 backward pass of DMC

Reentrant checkpointing runs the forward pass without gradients, where some
layers produce another memory layout, so dropout filled its mask in another
order than in the recomputation (and than without DMC).
---
 torchiva/t_iss.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/torchiva/t_iss.py b/torchiva/t_iss.py
index 7e38484..4e3b8d7 100644
--- a/torchiva/t_iss.py
+++ b/torchiva/t_iss.py
@@ -508,6 +508,7 @@ class T_ISS(DRBSSBase):
                     eps,
                     *model_params,
                     preserve_rng_state=True,
+                    use_reentrant=False,
                 )
             else:
                 Y, W, H, J, g = over_iss_t_one_iter(
-- 
2.43.0


From cc791eb91b66882a9be18d41a58d6166e99243a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:03 +0000
Subject: [PATCH 13/13] fix: never combine model files downloaded before and
 after a model was replaced

---
 torchiva/loader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/torchiva/loader.py b/torchiva/loader.py
index ed20fc9..bff9b21 100644
--- a/torchiva/loader.py
+++ b/torchiva/loader.py
@@ -62,8 +62,12 @@ def get_model_from_url(url):
 
     ckpt_fn.parent.mkdir(exist_ok=True, parents=True)
 
+    # the files belong together: if one is missing, get both, because the other
+    # one may stem from an earlier attempt, before the model was published anew
+    is_cached = ckpt_fn.exists() and yaml_fn.exists()
+
     for fn, url in ((ckpt_fn, ckpt_url), (yaml_fn, yaml_url)):
-        if not fn.exists():
+        if not is_cached:
             download_file(url, fn)
 
     return ckpt_fn, yaml_fn
-- 
2.43.0

