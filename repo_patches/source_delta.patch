From f096981db581dd917baf53a67501c5f7efe252d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:06 +0000
Subject: [PATCH 01/49] fix: Concatenate results have a sample type that can
 store all data sets

---
 sumpf/_blocks/_concatenate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sumpf/_blocks/_concatenate.py b/sumpf/_blocks/_concatenate.py
index e6da5c6..1082266 100644
--- a/sumpf/_blocks/_concatenate.py
+++ b/sumpf/_blocks/_concatenate.py
@@ -16,6 +16,7 @@
 
 """Contains the :class:`~sumpf.Concatenate` class."""
 
+import numpy
 import connectors
 import sumpf
 import sumpf._internal as sumpf_internal
@@ -72,13 +73,14 @@ class Concatenate:
             # allocate an array for the concatenated channels and copy the first data set
             offset = min(i[0] for i in indices)
             length = max(i[1] for i in indices) - offset
+            dtype = numpy.result_type(numpy.float64, *(i[2].dtype for i in indices))    # a type, that can store the samples of all data sets
             start, stop, dataset_channels = indices[0]
             start -= offset
             stop -= offset
             if len(dataset_channels.shape) == 2:
                 signal = True
                 channels = sumpf_internal.allocate_array(shape=(number_of_channels, length),
-                                                         dtype=dataset_channels.dtype)
+                                                         dtype=dtype)
                 channels[0:len(dataset_channels), start:stop] = dataset_channels
                 if len(dataset_channels) < number_of_channels:
                     channels[len(dataset_channels):, start:stop] = 0.0
@@ -86,7 +88,7 @@ class Concatenate:
                 signal = False
                 number_of_frequencies = max(i[2].shape[1] for i in indices)
                 channels = sumpf_internal.allocate_array(shape=(number_of_channels, number_of_frequencies, length),
-                                                         dtype=dataset_channels.dtype)
+                                                         dtype=dtype)
                 l, f = dataset_channels.shape[0:2]
                 channels[0:l, 0:f, start:stop] = dataset_channels
                 if f < number_of_frequencies:
-- 
2.43.0


From 54334cfe940f06aa764049d80646faf12f5cfd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 02/49] fix: Jack does not repeat the end of the signal, when
 its length is not a multiple of the block size

---
 sumpf/_blocks/_jack.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 2d461ec..01669f0 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -449,13 +449,15 @@ def on_process(frames, instance):
             for port, channel in zip(instance._client.inports, instance._channels):
                 channel[index:stop_index] = port.get_array()
         elif index < instance._input.length():
-            stop_index = instance._input.length() - index
+            remaining = instance._input.length() - index
             for port, channel in zip(instance._client.outports, channels):
-                port.get_array()[0:stop_index] = channel[index:]
-                port.get_array()[stop_index:] = 0.0
+                port.get_array()[0:remaining] = channel[index:]
+                port.get_array()[remaining:] = 0.0
             for port, channel in zip(instance._client.inports, instance._channels):
-                channel[index:] = port.get_array()[0:stop_index]
+                channel[index:] = port.get_array()[0:remaining]
         else:
+            for port in instance._client.outports:  # the JACK server repeats the last block, if it is not overwritten
+                port.get_array()[:] = 0.0
             instance._event.set()
             if instance._auto_deactivate:  # pylint: disable=no-else-raise
                 instance._store_connections()
-- 
2.43.0


From b7beb7675eb876eaff71d4a3de53ff0bec00b93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 03/49] fix: the delay of an XRun is given in seconds

---
 sumpf/_blocks/_jack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 01669f0..1bcaf14 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -483,7 +483,7 @@ def on_xrun(delay: float, instance):
     old = instance._xruns.output()
     xrun = XRun(start=instance._index,
                 stop=instance._index + instance._client.blocksize,
-                delay=delay * 1e6)    # convert the microseconds to seconds
+                delay=delay * 1e-6)    # convert the microseconds to seconds
     instance._xruns.input((old[0] + 1, xrun))
 
 ##############################
-- 
2.43.0


From c577e834133f4672298900c148014feaa7ea58ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:19 +0000
Subject: [PATCH 04/49] fix: the offset and the labels of a Jack recording do
 not change with the configuration of the next one

---
 sumpf/_blocks/_jack.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 1bcaf14..10465c9 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -84,6 +84,8 @@ class Jack:
         self._auto_deactivate = auto_deactivate
         self.__connections = []
         self._channels = numpy.empty(shape=(1, 0))
+        self._offset = input_signal.offset()
+        self._labels = ()
         self._index = 0
         self._event = threading.Event()
         self._event.set()
@@ -133,6 +135,8 @@ class Jack:
         """
         self.activate()
         self._channels = sumpf_internal.allocate_array(shape=(len(self._client.inports), self._input.length()))
+        self._offset = self._input.offset()
+        self._labels = tuple(p.shortname for p in self._client.inports)
         self._index = 0
         self._event.clear()
         return self
@@ -161,8 +165,8 @@ class Jack:
             time.sleep(1.1 * self._client.blocksize / self._client.samplerate)  # wait for one buffer length to avoid xruns during the last call of the process-callback
         return sumpf.Signal(channels=self._channels,
                             sampling_rate=self._sampling_rate.output(),
-                            offset=self._input.offset(),
-                            labels=[p.shortname for p in self._client.inports])
+                            offset=self._offset,
+                            labels=self._labels)
 
     ############################
     # connecting of JACK ports #
-- 
2.43.0


From 9e979776e2500a182841932c0dd71a85805aefcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 05/49] fix: Jack connections refer to the same ports after
 changing the input signal

---
 sumpf/_blocks/_jack.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 10465c9..4f39b76 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -189,10 +189,14 @@ class Jack:
         :raises ValueError: if a port specifier cannot be parsed or the port cannot be found
         :returns: ``self``
         """
+        output_port = self.__output_port(output_port, own=False)
+        input_port = self.__input_port(input_port, own=False)
         try:
             self.__connect(output_port, input_port)
         except jack.JackError:
-            self.__connections.append((output_port, input_port))
+            # store the own ports by their index, because their names can change with the input signal
+            self.__connections.append((self.__index(output_port, self._client.outports),
+                                       self.__index(input_port, self._client.inports)))
         return self
 
     @connectors.Output()
@@ -355,7 +359,7 @@ class Jack:
         for i, c in enumerate(self._client.outports):
             connections.extend([(i, p) for p in c.connections if not self._client.owns(p)])
         for i, c in enumerate(self._client.inports):
-            connections.extend([(p, i) for p in c.connections])
+            connections.extend([(self.__index(p, self._client.outports), i) for p in c.connections])
         if connections:     # connections can be empty, if the client is already deactivated, so we don't want to overwrite the stored connections
             self.__connections = connections
 
@@ -381,6 +385,7 @@ class Jack:
             self._client.outports.clear()
             for label in labels:
                 self._client.outports.register(label)
+            self.__connections = [(o, i) for o, i in self.__connections if not isinstance(o, int) or o < len(labels)]
             try:
                 for c in self.__connections:
                     self.__connect(*c)
@@ -389,6 +394,12 @@ class Jack:
             else:
                 self.__connections.clear()
 
+    @staticmethod
+    def __index(port, ports):
+        """A helper method, that returns the index of the given port in the list of this
+        instance's ports, or the port itself, if it is not one of them."""
+        return next((i for i, p in enumerate(ports) if p == port), port)
+
     def __input_port(self, port, own=True):
         """A helper method, that finds the input port, that is specified by ``port``.
         See the connect-method for how to specify a port.
-- 
2.43.0


From 545dc8403119c8cde03d2b97f2a2f2f8ba2c822f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 06/49] fix: Jack does not confuse the short names of its own
 ports with those of other clients

---
 sumpf/_blocks/_jack.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 4f39b76..7b77d98 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -412,10 +412,12 @@ class Jack:
         if isinstance(port, jack.Port):
             return port
         elif isinstance(port, str):
-            ports = self._client.inports if own else self._client.get_ports(is_input=True)
-            for p in ports:
+            for p in self._client.inports:
                 if port in (p.shortname, p.name):
                     return p
+            for p in () if own else self._client.get_ports(is_input=True):
+                if port == p.name:
+                    return p
             raise ValueError(f"unknown port name: {port}")
         elif isinstance(port, int):
             return self._client.inports[port]
@@ -434,10 +436,12 @@ class Jack:
         if isinstance(port, jack.Port):
             return port
         elif isinstance(port, str):
-            ports = self._client.outports if own else self._client.get_ports(is_output=True)
-            for p in ports:
+            for p in self._client.outports:
                 if port in (p.shortname, p.name):
                     return p
+            for p in () if own else self._client.get_ports(is_output=True):
+                if port == p.name:
+                    return p
             raise ValueError(f"unknown port name: {port}")
         elif isinstance(port, int):
             return self._client.outports[port]
-- 
2.43.0


From 6999aa857c7c809d504834a5b5aca3f05b79268e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 07/49] fix: Jack's output ports do not get the names of its
 input ports

---
 sumpf/_blocks/_jack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 7b77d98..437e420 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -91,9 +91,9 @@ class Jack:
         self._event.set()
         # initialize a JACK client
         self._client = jack.Client(name)
-        self.__update_output_ports()
         for short_name in input_ports:
             self._client.inports.register(short_name)
+        self.__update_output_ports()
         # Passthrough instances for asynchronous events
         self._sampling_rate = connectors.blocks.PassThrough(float(self._client.samplerate))
         self._xruns = connectors.blocks.PassThrough((0, None))
@@ -367,7 +367,7 @@ class Jack:
         """A helper method, that generates ports in the JACK server from the input signal's labels."""
         # sanitize the labels from the input signal
         labels = list(self._input.labels()[0:len(self._input)])
-        checked_labels = set()
+        checked_labels = {p.shortname for p in self._client.inports}    # a port name must be unique, even if the other port is an input port
         for i, label in enumerate(labels):
             if not isinstance(label, str) or label == "" or label in checked_labels:
                 new_label = f"output_{i+1}"
-- 
2.43.0


From 371dd5b383ea2ebeec8b6ebd11bd9395dc2365e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:04 +0000
Subject: [PATCH 08/49] fix: Jack.input waits for the deactivation of the
 client, so that connections are not lost

---
 sumpf/_blocks/_jack.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sumpf/_blocks/_jack.py b/sumpf/_blocks/_jack.py
index 437e420..d1bb157 100644
--- a/sumpf/_blocks/_jack.py
+++ b/sumpf/_blocks/_jack.py
@@ -148,7 +148,7 @@ class Jack:
         :param signal: a :class:`~sumpf.Signal` instance
         :returns: ``self``
         """
-        self._event.wait()  # don't change the signal during a recording
+        self._wait()    # don't change the signal during a recording
         self._input = signal
         self.__update_output_ports()
         return self
@@ -160,9 +160,7 @@ class Jack:
 
         :returns: a :class:`~sumpf.Signal` instance
         """
-        self._event.wait()
-        if self._auto_deactivate:
-            time.sleep(1.1 * self._client.blocksize / self._client.samplerate)  # wait for one buffer length to avoid xruns during the last call of the process-callback
+        self._wait()
         return sumpf.Signal(channels=self._channels,
                             sampling_rate=self._sampling_rate.output(),
                             offset=self._offset,
@@ -342,6 +340,12 @@ class Jack:
     # private helper methods #
     ##########################
 
+    def _wait(self):
+        """A helper method, that waits until the recording is finished and the client has been deactivated."""
+        self._event.wait()
+        if self._auto_deactivate:
+            time.sleep(1.1 * self._client.blocksize / self._client.samplerate)  # wait for one buffer length to avoid xruns or losing connections during the last call of the process-callback
+
     def __connect(self, output_port, input_port):
         """A helper method, that checks if the given connection already exists and creates it, if not."""
         o = self.__output_port(output_port, own=False)
-- 
2.43.0


From 345f90af1f47fc3b88cc8c362ca3cd411d66f535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:12 +0000
Subject: [PATCH 09/49] fix: NumPy arrays and numbers on the left hand side of
 an operator do not iterate over data sets endlessly

---
 sumpf/_data/_filters/_base/_filter.py | 2 ++
 sumpf/_data/_sampled_data.py          | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/sumpf/_data/_filters/_base/_filter.py b/sumpf/_data/_filters/_base/_filter.py
index 028bc70..fffe0db 100644
--- a/sumpf/_data/_filters/_base/_filter.py
+++ b/sumpf/_data/_filters/_base/_filter.py
@@ -104,6 +104,8 @@ class Filter:
        * inverting the filter with ``~filter_``. The inverse of a spectrum is
          simply ``1 / filter_``.
     """
+    __array_ufunc__ = None  #: makes NumPy's arrays and numbers leave binary operations to the right hand side operators of this class
+
     # terms for defining transfer functions
     Constant = terms.Constant.factory
     Polynomial = terms.Polynomial.factory
diff --git a/sumpf/_data/_sampled_data.py b/sumpf/_data/_sampled_data.py
index 1bb5c52..7db28e3 100644
--- a/sumpf/_data/_sampled_data.py
+++ b/sumpf/_data/_sampled_data.py
@@ -23,6 +23,8 @@ import sumpf._internal as sumpf_internal
 class SampledData:
     """Base class for data containers with channels of sampled data and labels."""
 
+    __array_ufunc__ = None  #: makes NumPy's arrays and numbers leave binary operations to the right hand side operators of this class
+
     def __init__(self, channels, labels):
         """
         :param channels: a two-dimensional :func:`numpy.array`
-- 
2.43.0


From 7063d5b7a496148b1bf5198b0d3b870f92418e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:12 +0000
Subject: [PATCH 10/49] fix: subtracting a filter from a data set or dividing a
 data set by a filter raises a TypeError

---
 sumpf/_data/_filters/_base/_filter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sumpf/_data/_filters/_base/_filter.py b/sumpf/_data/_filters/_base/_filter.py
index fffe0db..a63aae9 100644
--- a/sumpf/_data/_filters/_base/_filter.py
+++ b/sumpf/_data/_filters/_base/_filter.py
@@ -299,6 +299,8 @@ class Filter:
 
     def __rsub__(self, other):
         """Right hand side operator overload for subtracting this from a number."""
+        if not isinstance(other, (int, float, complex)):
+            return NotImplemented
         number = terms.Constant(other)
         return Filter(transfer_functions=tuple(number - tf for tf in self.__transfer_functions),
                       labels=self.__labels)
@@ -367,6 +369,8 @@ class Filter:
 
     def __rtruediv__(self, other):
         """Right hand side operator overload for dividing a number by this."""
+        if not isinstance(other, (int, float, complex)):
+            return NotImplemented
         number = terms.Constant(other)
         return Filter(transfer_functions=tuple(number / tf for tf in self.__transfer_functions),
                       labels=self.__labels)
-- 
2.43.0


From dff4cd398598425463dee96a6a6409c1eb7056ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:21 +0000
Subject: [PATCH 11/49] fix: algebra with spectrums of different lengths

---
 sumpf/_data/_spectrums/_spectrum.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/sumpf/_data/_spectrums/_spectrum.py b/sumpf/_data/_spectrums/_spectrum.py
index 5a64aeb..d96aced 100644
--- a/sumpf/_data/_spectrums/_spectrum.py
+++ b/sumpf/_data/_spectrums/_spectrum.py
@@ -185,7 +185,9 @@ class Spectrum(SampledData):
         :returns: a :class:`~sumpf.Spectrum` instance
         """
         if isinstance(other, Spectrum):
-            if len(self) == 1:
+            if self._length != other.length():
+                channels = self.__algebra_function_different_lengths(other, function, other_pivot)
+            elif len(self) == 1:
                 channels = sumpf_internal.allocate_array(shape=(len(other), self._length), dtype=numpy.complex128)
                 function(self._channels[0], other.channels(), out=channels)
             elif len(other) == 1:
@@ -233,6 +235,29 @@ class Spectrum(SampledData):
                         resolution=self.__resolution,
                         labels=self._labels)
 
+    def __algebra_function_different_lengths(self, other, function, other_pivot):
+        shape = (max(len(self), len(other)), max(self._length, other.length()))
+        overlap = min(self._length, other.length())
+        # broadcast single channels to all channels of the other spectrum
+        a = self._channels
+        if len(self) == 1:
+            a = numpy.broadcast_to(a, (shape[0], self._length))
+        b = other.channels()
+        if len(other) == 1:
+            b = numpy.broadcast_to(b, (shape[0], other.length()))
+        # copy the two spectrums
+        channels = sumpf_internal.allocate_array(shape=shape, dtype=numpy.complex128)
+        channels[:] = 0.0
+        channels[0:len(a), 0:self._length] = a
+        if other_pivot is None:
+            channels[0:len(b), 0:other.length()] = b
+        else:
+            function(other_pivot, b, out=channels[0:len(b), 0:other.length()])
+        # apply the function to the overlapping parts of the two spectrums
+        c = min(len(a), len(b))
+        function(a[0:c, 0:overlap], b[0:c, 0:overlap], out=channels[0:c, 0:overlap])
+        return channels
+
     #########################################
     # overloaded and misused math operators #
     #########################################
-- 
2.43.0


From ac7f6a307c441fdc7d0cda8c24255e743a892887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:29 +0000
Subject: [PATCH 12/49] fix: slicing with the index -1, out-of-range slices and
 one-element tuples

---
 sumpf/_data/_signals/_signal.py           | 7 ++-----
 sumpf/_data/_spectrograms/_spectrogram.py | 8 ++------
 sumpf/_internal/_indexing.py              | 5 ++---
 3 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index cb9a430..771727e 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -106,11 +106,8 @@ class Signal(SampledData):
         slices = sumpf_internal.key_to_slices(key, self._channels.shape)
         offset = self.__offset
         if isinstance(slices, tuple):
-            if slices[1].start:
-                if slices[1].start < 0:
-                    offset += self._length + slices[1].start
-                else:
-                    offset += slices[1].start
+            if len(slices) == 2 and slices[1].start:
+                offset += slices[1].indices(self._length)[0]
             c = slices[0]
         else:
             c = slices
diff --git a/sumpf/_data/_spectrograms/_spectrogram.py b/sumpf/_data/_spectrograms/_spectrogram.py
index 69522b2..8541c21 100644
--- a/sumpf/_data/_spectrograms/_spectrogram.py
+++ b/sumpf/_data/_spectrograms/_spectrogram.py
@@ -110,12 +110,8 @@ class Spectrogram(SampledData):
         slices = sumpf_internal.key_to_slices(key, self._channels.shape)
         offset = self.__offset
         if isinstance(slices, tuple):
-            if len(slices) == 3:
-                if slices[2].start:
-                    if slices[2].start < 0:
-                        offset += self._length + slices[2].start
-                    else:
-                        offset += slices[2].start
+            if len(slices) == 3 and slices[2].start:
+                offset += slices[2].indices(self._length)[0]
             c = slices[0]
         else:
             c = slices
diff --git a/sumpf/_internal/_indexing.py b/sumpf/_internal/_indexing.py
index 009e393..4ab5a4b 100644
--- a/sumpf/_internal/_indexing.py
+++ b/sumpf/_internal/_indexing.py
@@ -54,10 +54,9 @@ def key_to_slices(key, shape):
     :returns: a slice or a tuple of slices, if the shape is multidimensional
     """
     if isinstance(key, int):
-        return slice(key, key + 1)
+        return slice(key, key + 1 if key != -1 else None)
     elif isinstance(key, float):
-        key = index(key, (shape[0] - 1))
-        return slice(key, key + 1)
+        return key_to_slices(index(key, max(shape[0] - 1, 0)), shape)
     elif isinstance(key, slice):
         return slice(*(index(e, shape[0]) if isinstance(e, float) else e for e in (key.start, key.stop, key.step)))   # pylint: disable=line-too-long; this will become even more unreadable, when it's split to multiple lines
     else:
-- 
2.43.0


From 533452b145ef5d62df2ed137bb45618335f339ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 13/49] fix: the labels of convolutions with signals, that have
 more channels

---
 sumpf/_data/_signals/_signal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index 771727e..71e3c36 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -672,7 +672,7 @@ class Signal(SampledData):
                                                           other_offset=other.offset(),
                                                           function=sumpf_internal.convolution,
                                                           mode=mode)
-            labels = ("Convolution",) * len(self._channels)
+            labels = ("Convolution",) * len(channels)
         else:
             channels, offset = self.__convolve_with_array(other=other,
                                                           other_offset=0,
@@ -710,7 +710,7 @@ class Signal(SampledData):
                                                           other_offset=other.offset(),
                                                           function=sumpf_internal.correlation,
                                                           mode=mode)
-            labels = ("Correlation",) * len(self._channels)
+            labels = ("Correlation",) * len(channels)
         else:
             channels, offset = self.__convolve_with_array(other=other,
                                                           other_offset=0,
-- 
2.43.0


From 39497710862a330f1cf22601fcc4cb02d71ff6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:38 +0000
Subject: [PATCH 14/49] fix: slicing a filter with a tuple does not raise a
 TypeError

---
 sumpf/_data/_filters/_base/_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sumpf/_data/_filters/_base/_filter.py b/sumpf/_data/_filters/_base/_filter.py
index a63aae9..33b0100 100644
--- a/sumpf/_data/_filters/_base/_filter.py
+++ b/sumpf/_data/_filters/_base/_filter.py
@@ -140,6 +140,8 @@ class Filter:
                     be integers or floats between 0.0 and 1.0.
         :returns: a :class:`~sumpf.Filter` instance
         """
+        if isinstance(key, tuple):  # a filter has only one axis, so only the first element of a tuple is relevant
+            key = key[0] if key else slice(None)
         slices = sumpf_internal.key_to_slices(key, (len(self.__transfer_functions),))
         return Filter(transfer_functions=self.__transfer_functions[slices],
                       labels=self.__labels[slices])
-- 
2.43.0


From 8950ba1de0e506e6bf33f6e576670013aa9d8494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:38 +0000
Subject: [PATCH 15/49] fix: a difference with a zero minuend does not lose its
 lowpass-to-highpass transform

---
 sumpf/_data/_filters/_base/_terms/_binary.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sumpf/_data/_filters/_base/_terms/_binary.py b/sumpf/_data/_filters/_base/_terms/_binary.py
index 92600f5..669c30e 100644
--- a/sumpf/_data/_filters/_base/_terms/_binary.py
+++ b/sumpf/_data/_filters/_base/_terms/_binary.py
@@ -165,7 +165,10 @@ class Difference(Term):
             else:
                 return minuend
         elif minuend.is_zero():
-            return -subtrahend
+            if transform:
+                return -subtrahend.invert_transform()
+            else:
+                return -subtrahend
         elif minuend == subtrahend:
             return Constant(0.0)
         else:
-- 
2.43.0


From 74e29d6119b32759148f0879348a0dd7f08624da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:53 +0000
Subject: [PATCH 16/49] fix: the channels of a filter do not affect each
 other's value at 0Hz

---
 sumpf/_data/_filters/_base/_filter.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sumpf/_data/_filters/_base/_filter.py b/sumpf/_data/_filters/_base/_filter.py
index 33b0100..ef603d4 100644
--- a/sumpf/_data/_filters/_base/_filter.py
+++ b/sumpf/_data/_filters/_base/_filter.py
@@ -154,11 +154,10 @@ class Filter:
                   is a number or an array, if ``frequencies`` is a sequence.
         """
         if not numpy.shape(frequencies):    # create an array if frequencies is a scalar value
-            s = S(numpy.reshape(frequencies, (1, 1)))
-            return tuple(tf(s)[0, 0] for tf in self.__transfer_functions)
+            frequencies = numpy.reshape(frequencies, (1, 1))
+            return tuple(tf(S(frequencies))[0, 0] for tf in self.__transfer_functions)
         else:
-            s = S(frequencies)
-            return tuple(tf(s) for tf in self.__transfer_functions)
+            return tuple(tf(S(frequencies)) for tf in self.__transfer_functions)
 
     def __len__(self):
         """Operator overload for retrieving the filter's number of channels with
@@ -421,10 +420,9 @@ class Filter:
         :returns: a :class:`~sumpf.Spectrum` instance
         """
         frequencies = numpy.linspace(0.0, (length - 1) * resolution, length)
-        s = S(frequencies)
         channels = sumpf_internal.allocate_array(shape=(len(self.__transfer_functions), length), dtype=numpy.complex128)
         for tf, c in zip(self.__transfer_functions, channels):
-            tf(s, out=c)
+            tf(S(frequencies), out=c)   # S is not shared between the channels, because it also stores, if a channel's value at 0Hz is invalid
         return sumpf.Spectrum(channels=channels, resolution=resolution, labels=self.__labels)
 
     #######################
-- 
2.43.0


From d82270ad417d1508bc4b4503b7021f1ed4689185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:53 +0000
Subject: [PATCH 17/49] fix: comparing bands with different numbers of
 supporting points does not raise a ValueError

---
 sumpf/_data/_filters/_base/_terms/_primitive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumpf/_data/_filters/_base/_terms/_primitive.py b/sumpf/_data/_filters/_base/_terms/_primitive.py
index 4a194a5..a567bcc 100644
--- a/sumpf/_data/_filters/_base/_terms/_primitive.py
+++ b/sumpf/_data/_filters/_base/_terms/_primitive.py
@@ -512,8 +512,8 @@ class Bands(Term):
             return False
         elif (self.interpolation != other.interpolation or
               self.extrapolation != other.extrapolation or
-              numpy.not_equal(self.xs, other.xs).any() or
-              numpy.not_equal(self.ys, other.ys).any()):
+              not numpy.array_equal(self.xs, other.xs) or
+              not numpy.array_equal(self.ys, other.ys)):
             return False
         return super().__eq__(other)
 
-- 
2.43.0


From 3f554eeb74bde512cc9c4f2aa3d1dbfd72559cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:54 +0000
Subject: [PATCH 18/49] fix: bands can be evaluated for a list of frequencies

---
 sumpf/_data/_filters/_base/_filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sumpf/_data/_filters/_base/_filter.py b/sumpf/_data/_filters/_base/_filter.py
index ef603d4..52f2a6c 100644
--- a/sumpf/_data/_filters/_base/_filter.py
+++ b/sumpf/_data/_filters/_base/_filter.py
@@ -157,6 +157,7 @@ class Filter:
             frequencies = numpy.reshape(frequencies, (1, 1))
             return tuple(tf(S(frequencies))[0, 0] for tf in self.__transfer_functions)
         else:
+            frequencies = numpy.asarray(frequencies)
             return tuple(tf(S(frequencies)) for tf in self.__transfer_functions)
 
     def __len__(self):
-- 
2.43.0


From 1f01f27804de0a7a06ea3e6d8663d87adf408e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:19 +0000
Subject: [PATCH 19/49] fix: the block-wise Fourier transform does not skip the
 first segment of signals, that are shorter than the window

---
 sumpf/_data/_signals/_signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index 71e3c36..1679c64 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -470,7 +470,7 @@ class Signal(SampledData):
                     numpy.exp(compensation, out=compensated)
                     compensated *= spectrum
                     channels += compensated
-            i = 0
+            i = -step
             for i in range(0, self._length - window_length + 1, step):
                 numpy.multiply(self._channels[:, i:window_length + i],
                                window_channels,
-- 
2.43.0


From 1b4c770c071281a089dc5be4b863def3e61bbf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:19 +0000
Subject: [PATCH 20/49] fix: the resolution of a block-wise Fourier transform
 does not depend on the sampling rate of the window

---
 sumpf/_data/_signals/_signal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index 1679c64..a42a70c 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -441,14 +441,14 @@ class Signal(SampledData):
         window_length = window.length()
         length = window_length // 2 + 1
         if len(self._channels) == 0 or len(window) == 0 or window_length == 0:  # pylint: disable=len-as-condition; these are numpy arrays, that do not evaluate to False if empty
-            resolution = window.sampling_rate() / max(window_length, 1)
+            resolution = self.__sampling_rate / max(window_length, 1)
             channels = sumpf_internal.allocate_array(shape=(max(len(self._channels), len(window)), length),
                                                      dtype=numpy.complex128)
             channels[:, :] = 0.0
         else:
             window_channels = window.channels()
             overlap = sumpf_internal.index(overlap, window_length)
-            resolution = window.sampling_rate() / window_length
+            resolution = self.__sampling_rate / window_length
             channels = sumpf_internal.allocate_array(shape=(max(len(self._channels), len(window)), length),
                                                      dtype=numpy.complex128)
             channels[:, :] = 0.0
-- 
2.43.0


From a152fd828d393a3bc312e0b184a79c0f4968fd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:19 +0000
Subject: [PATCH 21/49] fix: the remainder of the offset is compensated
 correctly in the short time Fourier transform

---
 sumpf/_data/_signals/_signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index a42a70c..7c5a464 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -553,7 +553,7 @@ class Signal(SampledData):
         offset = int(round(self.__offset / step))
         offset_remainder = self.__offset - (offset * step)
         if offset_remainder:
-            max_frequency = (window_length - 1) * resolution
+            max_frequency = (window_length // 2) * resolution
             compensation = numpy.linspace(0.0, max_frequency, window_length // 2 + 1, dtype=numpy.complex128)
             compensation *= -1j * 2.0 * math.pi * (offset_remainder / self.__sampling_rate)
             numpy.exp(compensation, out=compensation)
-- 
2.43.0


From a5794699928d60168690b7ba5673f316ec7ecdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:19 +0000
Subject: [PATCH 22/49] fix: inverting signals with an odd length does not
 fail, when the zero padded spectrum has zeros

---
 sumpf/_data/_signals/_signal.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index 7c5a464..d1d4e4b 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -233,18 +233,8 @@ class Signal(SampledData):
         :returns: a :class:`~sumpf.Signal` instance
         """
         channels = sumpf_internal.allocate_array(shape=self.shape())
-        if self._length % 2 == 0:
-            spectrum = numpy.fft.rfft(self._channels)
-            channels[:] = numpy.fft.irfft(1.0 / spectrum)
-        else:
-            # odd-length signals require zero padding, so that there is no sample lost in the FFT
-            padded = numpy.empty((len(self), 2 * self._length))
-            padded[:, 0:self._length] = self._channels
-            padded[:, self._length:] = 0.0
-            spectrum = numpy.fft.rfft(padded)
-            padded = numpy.fft.irfft(1.0 / spectrum)
-            channels[:] = padded[:, 0:self._length]
-            channels += padded[:, self._length:]
+        spectrum = numpy.fft.rfft(self._channels)
+        channels[:] = numpy.fft.irfft(1.0 / spectrum, n=self._length)
         return Signal(channels=channels,
                       sampling_rate=self.__sampling_rate,
                       offset=-self.__offset,
-- 
2.43.0


From 55ef2bc269cb6df55a3eff3442d663d38ffb5c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:28 +0000
Subject: [PATCH 23/49] fix: the inverse short time Fourier transform with a
 window length of one is not empty

---
 sumpf/_data/_spectrograms/_spectrogram.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sumpf/_data/_spectrograms/_spectrogram.py b/sumpf/_data/_spectrograms/_spectrogram.py
index 8541c21..197ee84 100644
--- a/sumpf/_data/_spectrograms/_spectrogram.py
+++ b/sumpf/_data/_spectrograms/_spectrogram.py
@@ -428,6 +428,7 @@ class Spectrogram(SampledData):
         window_length = window.length()
         overlap = sumpf_internal.index(overlap, window_length)
         step = window_length - overlap
+        boundary = pad and window_length > 1    # with a window length of 1, the STFT does not pad the signal and SciPy would remove all samples
         # compute the STFT
         if len(window) == 1:
             istft = scipy.signal.istft(self._channels,
@@ -435,7 +436,7 @@ class Spectrogram(SampledData):
                                        window=window.channels()[0],
                                        nperseg=window_length,
                                        noverlap=overlap,
-                                       boundary=pad)[1]
+                                       boundary=boundary)[1]
         else:
             istft = []
             for c, w in zip(self._channels, window.channels()):
@@ -444,7 +445,7 @@ class Spectrogram(SampledData):
                                                 window=w,
                                                 nperseg=window_length,
                                                 noverlap=overlap,
-                                                boundary=pad)[1])
+                                                boundary=boundary)[1])
         channels = sumpf_internal.allocate_array(shape=numpy.shape(istft))
         channels[:] = istft
         # return the spectrogram
-- 
2.43.0


From 885cd97503fce2907bad684a3fe791438cf1b562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 24/49] fix: npy files can be loaded in Python 3.12

---
 sumpf/_internal/_persistence/_filter_readers.py   | 2 +-
 sumpf/_internal/_persistence/_signal_readers.py   | 2 +-
 sumpf/_internal/_persistence/_spectrum_readers.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index 5b590cd..06c62f3 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -298,7 +298,7 @@ class NumpyReader(Reader):
                 interpolations = tuple(data["interpolations"])
                 extrapolations = tuple(data["extrapolations"])
                 labels = tuple(data["labels"])
-        except AttributeError:  # npy files cannot be opened with a context manager
+        except (AttributeError, TypeError):  # npy files cannot be opened with a context manager
             array = numpy.load(path).transpose()
             frequencies = array[0].real
             channels = array[1:]
diff --git a/sumpf/_internal/_persistence/_signal_readers.py b/sumpf/_internal/_persistence/_signal_readers.py
index 58c925e..6a2ba34 100644
--- a/sumpf/_internal/_persistence/_signal_readers.py
+++ b/sumpf/_internal/_persistence/_signal_readers.py
@@ -150,7 +150,7 @@ class NumpyReader(Reader):
         try:
             with numpy.load(path) as data:
                 return from_dict(data)
-        except AttributeError:  # npy files cannot be opened with a context manager
+        except (AttributeError, TypeError):  # npy files cannot be opened with a context manager
             array = numpy.load(path)
             filename = os.path.split(path)[-1]
             return from_rows(time_column=array[0],
diff --git a/sumpf/_internal/_persistence/_spectrum_readers.py b/sumpf/_internal/_persistence/_spectrum_readers.py
index 8f72e0b..261b7b3 100644
--- a/sumpf/_internal/_persistence/_spectrum_readers.py
+++ b/sumpf/_internal/_persistence/_spectrum_readers.py
@@ -177,7 +177,7 @@ class NumpyReader(Reader):
                 channels = allocate_array(shape=data["channels"].shape, dtype=numpy.complex128)
                 channels[:] = data["channels"]
                 return from_dict(channels, data)
-        except AttributeError:  # npy files cannot be opened with a context manager
+        except (AttributeError, TypeError):  # npy files cannot be opened with a context manager
             array = numpy.load(path)
             filename = os.path.split(path)[-1]
             return from_rows(frequency_column=array[0].real,
-- 
2.43.0


From babd80df342a6d21b444ed5a27d5d96dcc0501ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 25/49] fix: saving full scale samples as integers does not
 fail

---
 sumpf/_internal/_persistence/_signal_writers.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sumpf/_internal/_persistence/_signal_writers.py b/sumpf/_internal/_persistence/_signal_writers.py
index b75f1ba..744e04a 100644
--- a/sumpf/_internal/_persistence/_signal_writers.py
+++ b/sumpf/_internal/_persistence/_signal_writers.py
@@ -267,7 +267,7 @@ class StandardLibraryWriter:
                 if not self.__signed:
                     array += 1.0
                 array *= self.__factor
-                chunk = struct.pack(mask, *numpy.round(array).astype(int))
+                chunk = struct.pack(mask, *self.__integers(array))
                 f.writeframes(chunk)
                 i += chunk_size
             remaining_samples = number_of_samples - i
@@ -283,9 +283,18 @@ class StandardLibraryWriter:
                 if not self.__signed:
                     array += 1.0
                 array *= self.__factor
-                chunk = struct.pack(mask, *numpy.round(array).astype(int))
+                chunk = struct.pack(mask, *self.__integers(array))
                 f.writeframes(chunk)
 
+    def __integers(self, array):
+        """Rounds the scaled samples to integers and clips those, that exceed the range of the sample format.
+
+        :param array: an array with scaled samples
+        :returns: an array of integers
+        """
+        minimum = -self.__factor if self.__signed else 0
+        return numpy.clip(numpy.round(array), minimum, minimum + 2 * self.__factor - 1).astype(int)
+
 
 class WaveWriter(StandardLibraryWriter, Writer):
     """Saves integer wav files with the help of the :mod:`wave` module."""
-- 
2.43.0


From 9d1c4c237e92933d9195bf8b4e9b722dfc22066c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 26/49] fix: the soundfile library does not misinterpret the
 samples of signals with integer channels

---
 sumpf/_internal/_persistence/_signal_writers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_internal/_persistence/_signal_writers.py b/sumpf/_internal/_persistence/_signal_writers.py
index 744e04a..689e1d0 100644
--- a/sumpf/_internal/_persistence/_signal_writers.py
+++ b/sumpf/_internal/_persistence/_signal_writers.py
@@ -386,7 +386,7 @@ class SoundfileWriter(Writer):
         """
         import soundfile  # pylint: disable=import-outside-toplevel; having this as a top-level import would make all writers unavailable, if the soundfile library is not installed
         soundfile.write(file=path,
-                        data=signal.channels().transpose(),
+                        data=signal.channels().transpose().astype(numpy.float64, copy=False),  # integers would be interpreted as being scaled to the full range of their data type
                         samplerate=self.__sampling_rate_conversion(signal.sampling_rate()),
                         subtype=self.__subtype,
                         format=self.__format)
-- 
2.43.0


From b627593820027f1ab23f5c6027fb7fe75eac5965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 27/49] fix: data sets with other data types than float64 and
 complex128 can be saved as JSON

---
 sumpf/_internal/_persistence/_signal_writers.py      |  6 +++---
 sumpf/_internal/_persistence/_spectrogram_writers.py | 10 +++++-----
 sumpf/_internal/_persistence/_spectrum_writers.py    |  6 +++---
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/sumpf/_internal/_persistence/_signal_writers.py b/sumpf/_internal/_persistence/_signal_writers.py
index 689e1d0..254e51d 100644
--- a/sumpf/_internal/_persistence/_signal_writers.py
+++ b/sumpf/_internal/_persistence/_signal_writers.py
@@ -121,9 +121,9 @@ writers[Formats.AUTO] = AutoWriter(file_extension_mapping=file_extension_mapping
 
 def as_dict(signal):
     """Serializes a signal to a dictionary."""
-    return {"channels": [tuple(c) for c in signal.channels()],
-            "sampling_rate": signal.sampling_rate(),
-            "offset": signal.offset(),
+    return {"channels": signal.channels().tolist(),
+            "sampling_rate": float(signal.sampling_rate()),
+            "offset": int(signal.offset()),
             "labels": signal.labels()}
 
 
diff --git a/sumpf/_internal/_persistence/_spectrogram_writers.py b/sumpf/_internal/_persistence/_spectrogram_writers.py
index d3ef853..6846bd1 100644
--- a/sumpf/_internal/_persistence/_spectrogram_writers.py
+++ b/sumpf/_internal/_persistence/_spectrogram_writers.py
@@ -81,13 +81,13 @@ def as_dict(spectrogram):
     """Serializes a spectrogram to a dictionary."""
     channels = []
     for c in spectrogram.channels():
-        channel = {"real": [tuple(s) for s in numpy.real(c)],
-                   "imaginary": [tuple(s) for s in numpy.imag(c)]}
+        channel = {"real": numpy.real(c).tolist(),
+                   "imaginary": numpy.imag(c).tolist()}
         channels.append(channel)
     return {"channels": channels,
-            "resolution": spectrogram.resolution(),
-            "sampling_rate": spectrogram.sampling_rate(),
-            "offset": spectrogram.offset(),
+            "resolution": float(spectrogram.resolution()),
+            "sampling_rate": float(spectrogram.sampling_rate()),
+            "offset": int(spectrogram.offset()),
             "labels": spectrogram.labels()}
 
 
diff --git a/sumpf/_internal/_persistence/_spectrum_writers.py b/sumpf/_internal/_persistence/_spectrum_writers.py
index 7587716..c00d968 100644
--- a/sumpf/_internal/_persistence/_spectrum_writers.py
+++ b/sumpf/_internal/_persistence/_spectrum_writers.py
@@ -84,10 +84,10 @@ writers[Formats.AUTO] = AutoWriter(file_extension_mapping=file_extension_mapping
 
 def as_dict(spectrum):
     """Serializes a spectrum to a dictionary."""
-    return {"channels": [{"real": tuple(numpy.real(c)),
-                          "imaginary": tuple(numpy.imag(c))}
+    return {"channels": [{"real": numpy.real(c).tolist(),
+                          "imaginary": numpy.imag(c).tolist()}
                          for c in spectrum.channels()],
-            "resolution": spectrum.resolution(),
+            "resolution": float(spectrum.resolution()),
             "labels": spectrum.labels()}
 
 
-- 
2.43.0


From 8b0745084d63a5d867deb5a4188ae34c1b850b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 28/49] fix: the number of channels of empty data sets is not
 lost, when loading them

---
 sumpf/_internal/_persistence/_signal_readers.py      | 2 ++
 sumpf/_internal/_persistence/_spectrogram_readers.py | 8 ++++----
 sumpf/_internal/_persistence/_spectrum_readers.py    | 4 +++-
 3 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/sumpf/_internal/_persistence/_signal_readers.py b/sumpf/_internal/_persistence/_signal_readers.py
index 6a2ba34..236223d 100644
--- a/sumpf/_internal/_persistence/_signal_readers.py
+++ b/sumpf/_internal/_persistence/_signal_readers.py
@@ -78,6 +78,8 @@ def from_rows(time_column, data_rows, labels):
         elif len(labels) > len(channels):
             labels = labels[0:len(channels)]
         return sumpf.Signal(channels=channels, sampling_rate=sampling_rate, offset=offset, labels=labels)
+    elif len(labels):   # pylint: disable=len-as-condition; an empty signal with at least one channel
+        return sumpf.Signal(channels=numpy.empty(shape=(len(labels), 0)), labels=labels)
     else:
         return sumpf.Signal()
 
diff --git a/sumpf/_internal/_persistence/_spectrogram_readers.py b/sumpf/_internal/_persistence/_spectrogram_readers.py
index a204bf7..d84a9c1 100644
--- a/sumpf/_internal/_persistence/_spectrogram_readers.py
+++ b/sumpf/_internal/_persistence/_spectrogram_readers.py
@@ -73,13 +73,13 @@ class JsonReader(Reader):
                                 numpy.multiply(1j, c["imaginary"], out=channels[i])
                                 numpy.add(channels[i], c["real"], out=channels[i])
                         else:
-                            channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
+                            channels = numpy.empty(shape=(number_of_channels, number_of_bins, 0), dtype=numpy.complex128)
                     else:
-                        channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
+                        channels = numpy.empty(shape=(number_of_channels, 0, 0), dtype=numpy.complex128)
                 else:
-                    channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
+                    channels = numpy.empty(shape=(1, 0, 0), dtype=numpy.complex128)
             else:
-                channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
+                channels = numpy.empty(shape=(1, 0, 0), dtype=numpy.complex128)
             return from_dict(channels, data)
 
 
diff --git a/sumpf/_internal/_persistence/_spectrum_readers.py b/sumpf/_internal/_persistence/_spectrum_readers.py
index 261b7b3..536a9e5 100644
--- a/sumpf/_internal/_persistence/_spectrum_readers.py
+++ b/sumpf/_internal/_persistence/_spectrum_readers.py
@@ -85,6 +85,8 @@ def from_rows(frequency_column, data_rows, labels):     # pylint: disable=too-ma
             labels = labels[0:len(channels)]
         # create the Spectrum instance
         return sumpf.Spectrum(channels=channels, resolution=resolution, labels=labels)
+    elif len(labels):   # pylint: disable=len-as-condition; an empty spectrum with at least one channel
+        return sumpf.Spectrum(channels=numpy.empty(shape=(len(labels), 0), dtype=numpy.complex128), labels=labels)
     else:
         return sumpf.Spectrum()
 
@@ -154,7 +156,7 @@ class JsonReader(Reader):
                             numpy.multiply(1j, c["imaginary"], out=channels[i])
                             numpy.add(channels[i], c["real"], out=channels[i])
                     else:
-                        channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
+                        channels = numpy.empty(shape=(number_of_channels, 0), dtype=numpy.complex128)
                 else:
                     channels = numpy.empty(shape=(1, 0), dtype=numpy.complex128)
             else:
-- 
2.43.0


From 8286b1a78d1c969c95fd13112cb8ed1ba4909790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 29/49] fix: the meta data of data sets from npz files are
 numbers rather than arrays

---
 sumpf/_internal/_persistence/_signal_readers.py      | 4 ++--
 sumpf/_internal/_persistence/_spectrogram_readers.py | 6 +++---
 sumpf/_internal/_persistence/_spectrum_readers.py    | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sumpf/_internal/_persistence/_signal_readers.py b/sumpf/_internal/_persistence/_signal_readers.py
index 236223d..4f5e8c6 100644
--- a/sumpf/_internal/_persistence/_signal_readers.py
+++ b/sumpf/_internal/_persistence/_signal_readers.py
@@ -40,8 +40,8 @@ def from_dict(dictionary):
     else:
         channels = numpy.empty(shape=(1, 0))
     return sumpf.Signal(channels=channels,
-                        sampling_rate=dictionary.get("sampling_rate", 48000.0),
-                        offset=dictionary.get("offset", 0),
+                        sampling_rate=float(dictionary.get("sampling_rate", 48000.0)),
+                        offset=int(dictionary.get("offset", 0)),
                         labels=dictionary.get("labels", ()))
 
 
diff --git a/sumpf/_internal/_persistence/_spectrogram_readers.py b/sumpf/_internal/_persistence/_spectrogram_readers.py
index d84a9c1..9efb1eb 100644
--- a/sumpf/_internal/_persistence/_spectrogram_readers.py
+++ b/sumpf/_internal/_persistence/_spectrogram_readers.py
@@ -30,9 +30,9 @@ readers = {}    # maps file extensions to reader instances, that can be used for
 def from_dict(channels, dictionary):
     """Deserializes a spectrogram from a dictionary."""
     return sumpf.Spectrogram(channels=channels,
-                             resolution=dictionary.get("resolution", 1.0),
-                             sampling_rate=dictionary.get("sampling_rate", 48000.0),
-                             offset=dictionary.get("offset", 0),
+                             resolution=float(dictionary.get("resolution", 1.0)),
+                             sampling_rate=float(dictionary.get("sampling_rate", 48000.0)),
+                             offset=int(dictionary.get("offset", 0)),
                              labels=dictionary.get("labels", ()))
 
 
diff --git a/sumpf/_internal/_persistence/_spectrum_readers.py b/sumpf/_internal/_persistence/_spectrum_readers.py
index 536a9e5..c2b8eb5 100644
--- a/sumpf/_internal/_persistence/_spectrum_readers.py
+++ b/sumpf/_internal/_persistence/_spectrum_readers.py
@@ -32,7 +32,7 @@ readers = {}    # maps file extensions to reader instances, that can be used for
 def from_dict(channels, dictionary):
     """Deserializes a spectrum from a dictionary."""
     return sumpf.Spectrum(channels=channels,
-                          resolution=dictionary.get("resolution", 1.0),
+                          resolution=float(dictionary.get("resolution", 1.0)),
                           labels=dictionary.get("labels", ()))
 
 
-- 
2.43.0


From 1b0d3d002342aaac2283afad7d5138ab51971ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 30/49] fix: infinite values are not replaced by NaN, when
 loading JSON files

---
 sumpf/_internal/_persistence/_filter_readers.py      | 5 ++---
 sumpf/_internal/_persistence/_spectrogram_readers.py | 4 ++--
 sumpf/_internal/_persistence/_spectrum_readers.py    | 4 ++--
 3 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index 06c62f3..41d89b5 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -66,9 +66,8 @@ def term_from_dict(dictionary):
                     real = parameter["real"]
                     imaginary = parameter["imaginary"]
                     a = numpy.empty(shape=numpy.shape(real), dtype=numpy.complex128)
-                    a[:] = imaginary
-                    a *= 1j
-                    a += real
+                    a.real = real
+                    a.imag = imaginary
                     parameters[name] = a
                 else:
                     parameters[name] = parameter
diff --git a/sumpf/_internal/_persistence/_spectrogram_readers.py b/sumpf/_internal/_persistence/_spectrogram_readers.py
index 9efb1eb..c64b01a 100644
--- a/sumpf/_internal/_persistence/_spectrogram_readers.py
+++ b/sumpf/_internal/_persistence/_spectrogram_readers.py
@@ -70,8 +70,8 @@ class JsonReader(Reader):
                                                              number_of_samples),
                                                       dtype=numpy.complex128)
                             for i, c in enumerate(data["channels"]):
-                                numpy.multiply(1j, c["imaginary"], out=channels[i])
-                                numpy.add(channels[i], c["real"], out=channels[i])
+                                channels[i].real = c["real"]
+                                channels[i].imag = c["imaginary"]
                         else:
                             channels = numpy.empty(shape=(number_of_channels, number_of_bins, 0), dtype=numpy.complex128)
                     else:
diff --git a/sumpf/_internal/_persistence/_spectrum_readers.py b/sumpf/_internal/_persistence/_spectrum_readers.py
index c2b8eb5..397e76d 100644
--- a/sumpf/_internal/_persistence/_spectrum_readers.py
+++ b/sumpf/_internal/_persistence/_spectrum_readers.py
@@ -153,8 +153,8 @@ class JsonReader(Reader):
                     if number_of_samples:
                         channels = allocate_array(shape=(number_of_channels, number_of_samples), dtype=numpy.complex128)
                         for i, c in enumerate(data["channels"]):
-                            numpy.multiply(1j, c["imaginary"], out=channels[i])
-                            numpy.add(channels[i], c["real"], out=channels[i])
+                            channels[i].real = c["real"]
+                            channels[i].imag = c["imaginary"]
                     else:
                         channels = numpy.empty(shape=(number_of_channels, 0), dtype=numpy.complex128)
                 else:
-- 
2.43.0


From 3bfc19e8275eb398c6a13448a99e6dffd459130e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 31/49] fix: compressed aiff files are not loaded as if they
 had integer samples

---
 sumpf/_internal/_persistence/_signal_readers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sumpf/_internal/_persistence/_signal_readers.py b/sumpf/_internal/_persistence/_signal_readers.py
index 4f5e8c6..87e2e95 100644
--- a/sumpf/_internal/_persistence/_signal_readers.py
+++ b/sumpf/_internal/_persistence/_signal_readers.py
@@ -209,6 +209,8 @@ class StandardLibraryReader:
         path = str(path)  # the wave and aifc modules cannot deal with pathlib objects (at least not in Python 3.9)
         chunk_size = 2048
         with self.__module.open(path, mode="rb") as f:
+            if f.getcomptype() not in ("NONE", b"NONE"):
+                raise ValueError("Files with compressed samples are not supported by this reader")
             number_of_channels = f.getnchannels()
             number_of_samples = f.getnframes()
             sample_mask = self.__sample_width_mapping[f.getsampwidth()]
@@ -254,7 +256,7 @@ class WaveReader(StandardLibraryReader, Reader):
 
 class AifcReader(StandardLibraryReader, Reader):
     """Loads integer aiff files with the help of the :mod:`aifc` module."""
-    extensions = (".wav",)
+    extensions = (".aiff", ".aifc", ".aif")
 
     def __init__(self):
         StandardLibraryReader.__init__(self,
-- 
2.43.0


From 654980a73c859bf31f6c87d7b7d6fdfd5b16aa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 32/49] fix: files with an arbitrary line of text are not
 loaded as empty data sets

---
 sumpf/_internal/_persistence/_filter_readers.py   | 2 ++
 sumpf/_internal/_persistence/_signal_readers.py   | 2 ++
 sumpf/_internal/_persistence/_spectrum_readers.py | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index 41d89b5..779e59e 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -265,6 +265,8 @@ class CsvReader(Reader):
             # read the frequency samples
             for current_row in reader:
                 self.__process_row(bands, current_row)
+            if not any(bands) and first_row[0] != "frequency":
+                raise ValueError("The file does not seem to be a tabular representation of a Bands filter")
             # create the Filter instance
         return sumpf.Bands(bands=bands, labels=labels)
 
diff --git a/sumpf/_internal/_persistence/_signal_readers.py b/sumpf/_internal/_persistence/_signal_readers.py
index 87e2e95..eb5ca0d 100644
--- a/sumpf/_internal/_persistence/_signal_readers.py
+++ b/sumpf/_internal/_persistence/_signal_readers.py
@@ -120,6 +120,8 @@ class CsvReader(Reader):
             for row in reader:
                 time_samples.append(float(row[0]))
                 rows.append([float(c) for c in row[1:]])
+            if not rows and first_row[0] != "time":
+                raise ValueError("The file does not seem to be a tabular representation of a signal")
             return from_rows(time_column=time_samples,
                              data_rows=numpy.transpose(rows),
                              labels=labels)
diff --git a/sumpf/_internal/_persistence/_spectrum_readers.py b/sumpf/_internal/_persistence/_spectrum_readers.py
index 397e76d..9aa1cca 100644
--- a/sumpf/_internal/_persistence/_spectrum_readers.py
+++ b/sumpf/_internal/_persistence/_spectrum_readers.py
@@ -129,6 +129,8 @@ class CsvReader(Reader):
             for row in reader:
                 frequency_samples.append(float(row[0]))
                 rows.append([complex(c) for c in row[1:]])
+            if not rows and first_row[0] != "frequency":
+                raise ValueError("The file does not seem to be a tabular representation of a spectrum")
             return from_rows(frequency_column=frequency_samples,
                              data_rows=numpy.transpose(rows),
                              labels=labels)
-- 
2.43.0


From 42860ca2f51c039176573387556336065635d383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 33/49] fix: filters with NaN or infinite values can be loaded
 from their representation

---
 sumpf/_internal/_persistence/_filter_readers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index 779e59e..7175251 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -115,6 +115,10 @@ class ReprReader(Reader):
                                          "Bands": sumpf.Bands,
                                          "Interpolations": sumpf_internal.Interpolations,
                                          "array": numpy.array,
+                                         "nan": numpy.nan,
+                                         "inf": numpy.inf,
+                                         "nanj": complex(0.0, numpy.nan),
+                                         "infj": complex(0.0, numpy.inf),
                                          "float64": numpy.float64,
                                          "complex128": numpy.complex128})
             assert isinstance(result, sumpf.Filter)
-- 
2.43.0


From d7ad8180b19af70a41376d4df690cd3a3c151e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 34/49] fix: integers from NumPy arrays are not written as
 complex numbers to tables

---
 sumpf/_internal/_persistence/_filter_writers.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sumpf/_internal/_persistence/_filter_writers.py b/sumpf/_internal/_persistence/_filter_writers.py
index c9e9ae9..dec9530 100644
--- a/sumpf/_internal/_persistence/_filter_writers.py
+++ b/sumpf/_internal/_persistence/_filter_writers.py
@@ -19,6 +19,7 @@
 import csv
 import enum
 import json
+import numbers
 import pickle
 import numpy
 import sumpf._internal as sumpf_internal
@@ -221,7 +222,7 @@ class TextTabIWriter(TextTableWriter, Writer):
         """
         if number is None:
             return "nan"
-        elif isinstance(number, (float, int)):
+        elif isinstance(number, numbers.Real):
             return repr(number)
         else:
             imag = number.imag
@@ -257,7 +258,7 @@ class TextTabJWriter(TextTableWriter, Writer):
         """
         if number is None:
             return "nan"
-        elif isinstance(number, (float, int)):
+        elif isinstance(number, numbers.Real):
             return repr(number)
         else:
             imag = number.imag
@@ -293,7 +294,7 @@ class TextPipeIWriter(TextTableWriter, Writer):
         """
         if number is None:
             return "nan"
-        elif isinstance(number, (float, int)):
+        elif isinstance(number, numbers.Real):
             return repr(number)
         else:
             imag = number.imag
@@ -329,7 +330,7 @@ class TextPipeJWriter(TextTableWriter, Writer):
         """
         if number is None:
             return "nan"
-        elif isinstance(number, (float, int)):
+        elif isinstance(number, numbers.Real):
             return repr(number)
         else:
             imag = number.imag
@@ -366,7 +367,7 @@ class TextGnuplotWriter(TextTableWriter, Writer):
         """
         if number is None:
             return "{nan, nan}"
-        elif isinstance(number, (float, int)):
+        elif isinstance(number, numbers.Real):
             return repr(number)
         else:
             return f"{{{number.real!r},{number.imag!r}}}"
-- 
2.43.0


From 118e0f67cdb96aab4f5ac215e89e617f64416c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 35/49] fix: filters with complex or integer NumPy parameters
 can be saved as JSON

---
 .../_data/_filters/_base/_terms/_primitive.py | 30 ++++++++++++-------
 .../_internal/_persistence/_filter_readers.py |  2 +-
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/sumpf/_data/_filters/_base/_terms/_primitive.py b/sumpf/_data/_filters/_base/_terms/_primitive.py
index a567bcc..7b3db32 100644
--- a/sumpf/_data/_filters/_base/_terms/_primitive.py
+++ b/sumpf/_data/_filters/_base/_terms/_primitive.py
@@ -26,6 +26,21 @@ from .. import _functions as functions
 __all__ = ("Constant", "Polynomial", "Exp", "Bands")
 
 
+def serializable(value):
+    """A helper function, that converts the given value to an object, that can be
+    serialized for the :meth:`as_dict` methods of the terms.
+
+    :param value: a number or a sequence of numbers
+    :returns: a number or a list of numbers. If the value is complex, this is a
+              dictionary with its real and its imaginary part.
+    """
+    array = numpy.asarray(value)
+    if numpy.iscomplexobj(array):
+        return {"real": numpy.real(array).tolist(),
+                "imaginary": numpy.imag(array).tolist()}
+    return array.tolist()
+
+
 class Constant(Term):
     """A class for defining a constant transfer function, that does not depend on the frequency."""
 
@@ -162,7 +177,7 @@ class Constant(Term):
     def as_dict(self):
         """Returns a dictionary serialization of this term."""
         return {"type": "Constant",
-                "value": self.value}
+                "value": serializable(self.value)}
 
 
 class Polynomial(Term):
@@ -305,7 +320,7 @@ class Polynomial(Term):
     def as_dict(self):
         """Returns a dictionary serialization of this term."""
         return {"type": "Polynomial",
-                "coefficients": tuple(self.coefficients),
+                "coefficients": serializable(self.coefficients),
                 "transform": self.transform}
 
 
@@ -381,7 +396,7 @@ class Exp(Term):
     def as_dict(self):
         """Returns a dictionary serialization of this term."""
         return {"type": "Exp",
-                "coefficient": self.coefficient,
+                "coefficient": serializable(self.coefficient),
                 "transform": self.transform}
 
 
@@ -610,13 +625,8 @@ class Bands(Term):
 
     def as_dict(self):
         """Returns a dictionary serialization of this term."""
-        if self.ys.dtype in (numpy.complex128, numpy.complex256, numpy.complex64):
-            ys = {"real": tuple(numpy.real(self.ys)),
-                  "imaginary": tuple(numpy.imag(self.ys))}
-        else:
-            ys = tuple(self.ys)
         return {"type": "Bands",
-                "xs": tuple(self.xs),
-                "ys": ys,
+                "xs": serializable(self.xs),
+                "ys": serializable(self.ys),
                 "interpolation": int(self.interpolation),
                 "extrapolation": int(self.extrapolation)}
diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index 7175251..d4497c6 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -68,7 +68,7 @@ def term_from_dict(dictionary):
                     a = numpy.empty(shape=numpy.shape(real), dtype=numpy.complex128)
                     a.real = real
                     a.imag = imaginary
-                    parameters[name] = a
+                    parameters[name] = a[()]    # converts zero-dimensional arrays to scalars
                 else:
                     parameters[name] = parameter
             elif isinstance(parameter, collections.abc.Iterable):
-- 
2.43.0


From b858ede52681f21d6c4f66edfc864d682219df17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 36/49] fix: the representation of instances of sub-classes of
 Filter can be evaluated

---
 sumpf/_data/_filters/_base/_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_filters/_base/_filter.py b/sumpf/_data/_filters/_base/_filter.py
index 52f2a6c..159b0da 100644
--- a/sumpf/_data/_filters/_base/_filter.py
+++ b/sumpf/_data/_filters/_base/_filter.py
@@ -184,7 +184,7 @@ class Filter:
 
         :returns: a potentially very long string
         """
-        return (f"{self.__class__.__name__}(transfer_functions={self.__transfer_functions!r}, "
+        return (f"Filter(transfer_functions={self.__transfer_functions!r}, "
                 f"labels={self.__labels})")
 
     def __eq__(self, other):
-- 
2.43.0


From 7098088d7c6f1f2ef35559c0138cc520eca94f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:23 +0000
Subject: [PATCH 37/49] fix: comparing a constant term with the value zero to
 other terms is symmetric and does not raise an AttributeError

---
 sumpf/_data/_filters/_base/_terms/_primitive.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sumpf/_data/_filters/_base/_terms/_primitive.py b/sumpf/_data/_filters/_base/_terms/_primitive.py
index 7b3db32..ddaf50b 100644
--- a/sumpf/_data/_filters/_base/_terms/_primitive.py
+++ b/sumpf/_data/_filters/_base/_terms/_primitive.py
@@ -103,9 +103,7 @@ class Constant(Term):
 
     def __eq__(self, other):
         """An operator overload for comparing two terms with ``==``."""
-        if self.value == 0.0 and other.is_zero():
-            return True
-        elif not isinstance(other, Constant):
+        if not isinstance(other, Constant):
             return False
         elif self.value != other.value:
             return False
-- 
2.43.0


From 3e068d3b2762e1c30f055f19f1935a79e10ea823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:48 +0000
Subject: [PATCH 38/49] fix: the level over time weights the partly covered
 samples at the borders of the integration interval correctly

---
 sumpf/_data/_signals/_signal.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index d1d4e4b..b85f3de 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -593,7 +593,7 @@ class Signal(SampledData):
         half_window_length_float = (window_length - 1.0) / 2.0
         half_window_length = int(math.ceil(half_window_length_float))
         channels = sumpf_internal.allocate_array(shape=self._channels.shape)
-        if 1 + half_window_length >= self._length:
+        if 1 + half_window_length_float >= self._length:
             # if half the integration time is longer than the whole signal, the level is constant over time
             if pad:
                 levels = numpy.linalg.norm(self._channels, axis=1) / math.sqrt(window_length)
@@ -603,7 +603,7 @@ class Signal(SampledData):
                 c[:] = l
         else:
             # generate a window, that does the averaging of the squared signal
-            remainder = half_window_length - half_window_length_float
+            remainder = half_window_length_float - math.floor(half_window_length_float)
             window = numpy.full(1 + 2 * half_window_length, 1.0 / window_length)
             if remainder:
                 corner = remainder / window_length
@@ -630,16 +630,9 @@ class Signal(SampledData):
                     numpy.sqrt(numpy.convolve(s, window, mode="same")[a:b], out=c)
                 if not pad:
                     # compute a compensation for the start and the end of the level signal, where the convolution has assumed a zero padding
-                    correction = numpy.empty(self._length)
-                    correction[0:half_window_length] = numpy.linspace(1 + half_window_length_float,
-                                                                      half_window_length + half_window_length_float,
-                                                                      half_window_length)
-                    half_correction = correction[0:(self._length + 1) // 2]
-                    numpy.clip(half_correction, a_min=0, a_max=self._length, out=half_correction)
-                    numpy.divide(window_length, half_correction, out=half_correction)
-                    numpy.sqrt(half_correction, out=half_correction)
-                    correction[self._length - 1:(self._length + 1) // 2 - 1:-1] = correction[0:self._length // 2]   # copy the first half of the correction to the second half and reverse it
-                    channels *= correction
+                    effective_window_lengths = numpy.minimum(numpy.arange(self._length), half_window_length_float)  # the part of the window, that lies before the respective sample
+                    effective_window_lengths = effective_window_lengths + 1.0 + effective_window_lengths[::-1]
+                    channels *= numpy.sqrt(window_length / effective_window_lengths)
         return sumpf.Signal(channels=channels,
                             sampling_rate=self.__sampling_rate,
                             offset=self.__offset,
-- 
2.43.0


From 1ad5b5cea4072955408b08b0e7c74b80c1b8cf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:16 +0000
Subject: [PATCH 39/49] fix: the level of a spectrum with a single frequency
 bin does not count that bin twice

---
 sumpf/_data/_spectrums/_spectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumpf/_data/_spectrums/_spectrum.py b/sumpf/_data/_spectrums/_spectrum.py
index d96aced..2206887 100644
--- a/sumpf/_data/_spectrums/_spectrum.py
+++ b/sumpf/_data/_spectrums/_spectrum.py
@@ -405,10 +405,10 @@ class Spectrum(SampledData):
         abs_ = numpy.abs(self._channels)
         square = numpy.square(abs_, out=abs_)
         if single_value:
-            sum_ = math.fsum(math.fsum((math.fsum(c[1:-1]) * 2, c[0], c[-1])) for c in square)
+            sum_ = math.fsum(math.fsum((math.fsum(c[1:-1]) * 2, c[0], *c[1:][-1:])) for c in square)
             return math.sqrt(sum_ / len(self)) / signal_length
         else:
-            return numpy.fromiter((math.sqrt(math.fsum((math.fsum(c[1:-1]) * 2, c[0], c[-1]))) / signal_length for c in square),    # pylint: disable=line-too-long; don't know where to break without making the readability even worse
+            return numpy.fromiter((math.sqrt(math.fsum((math.fsum(c[1:-1]) * 2, c[0], *c[1:][-1:]))) / signal_length for c in square),    # pylint: disable=line-too-long; don't know where to break without making the readability even worse
                                   dtype=numpy.float64)
 
     #######################
-- 
2.43.0


From a3366374dcfcb770899e87ec0d669700e041858c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:37 +0000
Subject: [PATCH 40/49] fix: short maximum length sequences can be created
 without specifying the number of bits

---
 sumpf/_data/_signals/_mls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_mls.py b/sumpf/_data/_signals/_mls.py
index 92fceec..f1680ce 100644
--- a/sumpf/_data/_signals/_mls.py
+++ b/sumpf/_data/_signals/_mls.py
@@ -57,7 +57,7 @@ class MaximumLengthSequence(Signal):
                 bits = 16
             length = 2 ** bits - 1
         elif bits is None:
-            bits = int(math.ceil(math.log2(length + 1)))
+            bits = max(2, int(math.ceil(math.log2(length + 1))))    # there is no MLS, that is shorter than three samples
         random = numpy.random.default_rng(seed)
         state = random.choice((False, True), size=bits)
         if True not in state:
-- 
2.43.0


From ce4ffea59728d325619aebcba46d70f4ac86ed0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 41/49] fix: cutting out a harmonic impulse response does not
 modify the given impulse response

---
 sumpf/_data/_signals/_sweep.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_sweep.py b/sumpf/_data/_signals/_sweep.py
index d25717b..d233010 100644
--- a/sumpf/_data/_signals/_sweep.py
+++ b/sumpf/_data/_signals/_sweep.py
@@ -225,10 +225,12 @@ class BaseExponentialSweep(Sweep):
                 else:
                     channels = channels[:, 0:length]
         elif remaining_delay is not None:
+            new_channels = sumpf_internal.allocate_array(shape=channels.shape)
             apply_delay(channels=channels,
                         sampling_rate=sampling_rate,
                         delay=remaining_delay,
-                        out=channels)
+                        out=new_channels)
+            channels = new_channels
         # return the impulse response of the harmonic
         h = sumpf_internal.counting_number(harmonic)
         return Signal(channels=channels,
-- 
2.43.0


From 2dbfee10a1d06c4ab40c242f90579a9610197b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 42/49] fix: harmonic impulse responses have the requested
 length, when there are more channels than samples

---
 sumpf/_data/_signals/_sweep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_sweep.py b/sumpf/_data/_signals/_sweep.py
index d233010..2392092 100644
--- a/sumpf/_data/_signals/_sweep.py
+++ b/sumpf/_data/_signals/_sweep.py
@@ -214,7 +214,7 @@ class BaseExponentialSweep(Sweep):
                                 delay=remaining_delay,
                                 out=new_channels)
                 channels = new_channels
-            elif harmonic_length > channel_count:
+            else:
                 if remaining_delay is not None:
                     new_channels = sumpf_internal.allocate_array(shape=(channel_count, length))
                     apply_delay(channels=channels,
-- 
2.43.0


From 9711a7e6d6579448174f07055769c7f6edd41ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:35 +0000
Subject: [PATCH 43/49] fix: the delay of harmonic impulse responses with an
 odd length is computed with the correct frequencies

---
 sumpf/_data/_signals/_sweep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_sweep.py b/sumpf/_data/_signals/_sweep.py
index 2392092..549c401 100644
--- a/sumpf/_data/_signals/_sweep.py
+++ b/sumpf/_data/_signals/_sweep.py
@@ -72,7 +72,7 @@ def apply_delay(channels, sampling_rate, delay, out):
     """
     if channels.size:
         spectrum = numpy.fft.rfft(channels)
-        f = numpy.linspace(0.0, sampling_rate / 2.0, spectrum.shape[-1])
+        f = numpy.fft.rfftfreq(channels.shape[-1], 1.0 / sampling_rate)
         spectrum *= numpy.exp(2j * math.pi * f * delay)
         signal = numpy.fft.irfft(spectrum, n=channels.shape[-1])
         out[:, 0:signal.shape[1]] = signal[:, 0:out.shape[1]]
-- 
2.43.0


From a7c58bbf63e4cafe598fa0c1ad45ea0897057d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:52 +0000
Subject: [PATCH 44/49] fix: flat top windows with a length of one sample have
 the value one for all coefficient sets

---
 sumpf/_data/_signals/_windows_scipy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sumpf/_data/_signals/_windows_scipy.py b/sumpf/_data/_signals/_windows_scipy.py
index 419daac..1c7d5d3 100644
--- a/sumpf/_data/_signals/_windows_scipy.py
+++ b/sumpf/_data/_signals/_windows_scipy.py
@@ -206,7 +206,9 @@ class FlatTopWindow(Window):
     def _function(self, length):    # noqa: C901; the method is not complex, it's just a long switch case
         # pylint: disable=line-too-long; the coefficient lists may become long
         # pylint: disable=too-many-branches,too-many-return-statements; this is basically a large switch-statement
-        if self.__function == FlatTopWindow.functions.DEFAULT:
+        if length == 1:
+            return numpy.ones(1)    # scipy returns 1.0 in this case, rather than the sum of the coefficients
+        elif self.__function == FlatTopWindow.functions.DEFAULT:
             return scipy.signal.windows.flattop(length)
         elif self.__function == FlatTopWindow.functions.SFT3F:
             return scipy.signal.windows.general_cosine(length, (0.26526, 0.5, 0.23474))
-- 
2.43.0


From 5c66b1087b40964aca4ca405303609b29116737b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:59 +0000
Subject: [PATCH 45/49] fix: the samples at negative frequencies are cropped,
 when loading a spectrum from a table

---
 sumpf/_internal/_persistence/_spectrum_readers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sumpf/_internal/_persistence/_spectrum_readers.py b/sumpf/_internal/_persistence/_spectrum_readers.py
index 9aa1cca..be1ee59 100644
--- a/sumpf/_internal/_persistence/_spectrum_readers.py
+++ b/sumpf/_internal/_persistence/_spectrum_readers.py
@@ -70,9 +70,9 @@ def from_rows(frequency_column, data_rows, labels):     # pylint: disable=too-ma
             channels = allocate_array(shape=numpy.shape(sorted_data_rows), dtype=numpy.complex128)
             channels[:] = sorted_data_rows
         elif offset < 0:
-            channels = allocate_array(shape=numpy.subtract(numpy.shape(sorted_data_rows), (0, offset)),
-                                      dtype=numpy.complex128)
-            channels[:] = sorted_data_rows[:, offset:]
+            cropped_data_rows = [data_row[-offset:] for data_row in sorted_data_rows]
+            channels = allocate_array(shape=numpy.shape(cropped_data_rows), dtype=numpy.complex128)
+            channels[:] = cropped_data_rows
         else:
             channels = allocate_array(shape=numpy.add(numpy.shape(sorted_data_rows), (0, offset)),
                                       dtype=numpy.complex128)
-- 
2.43.0


From eb364a2b20d2e38b82f8891e603d807d98d33217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:59 +0000
Subject: [PATCH 46/49] fix: bands can be loaded from tables, in which some
 lines have less columns than others

---
 sumpf/_internal/_persistence/_filter_readers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index d4497c6..f48dd0e 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -215,6 +215,8 @@ class TableReader(Reader):
                     if not (line[0].isdigit() or nan_mask.match(line)):
                         raise ValueError("The file does not seem to be a tabular representation of a Bands filter")
                     for i, (match, bands) in enumerate(itertools.zip_longest(mask.finditer(line), all_bands)):
+                        if match is None:   # this line has less columns than others
+                            break
                         g, p, c, r, n = match.groups()[1:]  # find out, what kind of number (real, gnuplot, ...) is found by checking which group is not None
                         if i == 0:
                             if r is not None:
-- 
2.43.0


From 71f9090f7a1945cbe248b33e687cc9124c72c739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:59 +0000
Subject: [PATCH 47/49] fix: numbers with an exponent are not joined with the
 previous column of a table

---
 sumpf/_internal/_persistence/_filter_readers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index f48dd0e..bc24b01 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -198,7 +198,7 @@ class TableReader(Reader):
         :returns: a :class:`~sumpf.Filter` instance
         """
         # pylint: disable=too-many-locals,too-many-nested-blocks,too-many-branches; disable pylint's complexity warnings
-        unsigned = "(?:(?:\d+.?\d*e[+-]?\d+)|(?:\d+\.?\d*)|(?:\.\d+))"
+        unsigned = "(?:(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)"
         real = f"(?:-?{unsigned})"
         complex_parentheses = f"(?:\({real} *[+-] *{unsigned}[jJiI])\)"
         complex_ = f"(?:{real}[+-]{unsigned}[jJiI])"
-- 
2.43.0


From 8044b8ac7a9c996d34f0d2c274869c7de5511cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:51 +0000
Subject: [PATCH 48/49] fix: infinite values and complex values with a NaN part
 are not skipped, when loading bands from tables

---
 sumpf/_internal/_persistence/_filter_readers.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sumpf/_internal/_persistence/_filter_readers.py b/sumpf/_internal/_persistence/_filter_readers.py
index bc24b01..7563f00 100644
--- a/sumpf/_internal/_persistence/_filter_readers.py
+++ b/sumpf/_internal/_persistence/_filter_readers.py
@@ -198,11 +198,12 @@ class TableReader(Reader):
         :returns: a :class:`~sumpf.Filter` instance
         """
         # pylint: disable=too-many-locals,too-many-nested-blocks,too-many-branches; disable pylint's complexity warnings
-        unsigned = "(?:(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)"
+        unsigned = "(?:(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?|[iI][nN][fF])"
         real = f"(?:-?{unsigned})"
-        complex_parentheses = f"(?:\({real} *[+-] *{unsigned}[jJiI])\)"
-        complex_ = f"(?:{real}[+-]{unsigned}[jJiI])"
-        gnuplot = r"(?:\{-?%s *, *-?%s\})" % (unsigned, unsigned)
+        part = f"(?:{unsigned}|[nN]a[nN])"      # one part of a complex number can also be NaN
+        complex_parentheses = f"(?:\(-?{part} *[+-] *{part}[jJiI]\))"
+        complex_ = f"(?:-?{part}[+-]{part}[jJiI])"
+        gnuplot = r"(?:(?!\{[nN]a[nN] *, *[nN]a[nN]\})\{-?%s *, *-?%s\})" % (part, part)
         nan = "(?:[nN]a[nN])|(?:\{[nN]a[nN] *, *[nN]a[nN]\})"
         mask = re.compile(f"(({gnuplot})|({complex_parentheses})|({complex_})|({real})|({nan}))")
         nan_mask = re.compile(f"^{nan}")    # checks if the line starts with a NaN-value
@@ -238,7 +239,7 @@ class TableReader(Reader):
                                     bands[frequency] = complex(p.lstrip("(").rstrip(")").replace(" ", "").rstrip("jJiI") + "j")     # pylint: disable=line-too-long
                                 elif g is not None:     # a complex number in gnuplot syntax found
                                     real, imaginary = g.lstrip("{").rstrip("}").split(",")
-                                    bands[frequency] = float(real.strip()) + 1j * float(imaginary.strip())
+                                    bands[frequency] = complex(float(real.strip()), float(imaginary.strip()))
         filename = os.path.split(path)[-1]
         return sumpf.Bands(bands=all_bands[1:],
                            labels=[f"{filename} {i}" for i in range(1, len(all_bands))])
-- 
2.43.0


From 6b2931775f8389447a6623e1a9b72bf382ecc07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:18 +0000
Subject: [PATCH 49/49] fix: levels over time and energy decay curves of
 signals with small integer samples do not overflow

---
 sumpf/_data/_signals/_energy_decay.py | 2 +-
 sumpf/_data/_signals/_signal.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumpf/_data/_signals/_energy_decay.py b/sumpf/_data/_signals/_energy_decay.py
index e4bdf9b..cd6b327 100644
--- a/sumpf/_data/_signals/_energy_decay.py
+++ b/sumpf/_data/_signals/_energy_decay.py
@@ -49,7 +49,7 @@ class EnergyDecayCurve(Signal):
                                  which this energy decay curve shall be computed.
         """
         channels = sumpf_internal.allocate_array(shape=impulse_response.shape())
-        numpy.square(impulse_response.channels(), out=channels)
+        numpy.square(impulse_response.channels(), out=channels, dtype=numpy.float64)  # the squares of integer samples might exceed the range of their data type
         numpy.cumsum(channels[:, ::-1], axis=1, out=channels[:, ::-1])
         Signal.__init__(self,
                         channels=channels,
diff --git a/sumpf/_data/_signals/_signal.py b/sumpf/_data/_signals/_signal.py
index b85f3de..8290389 100644
--- a/sumpf/_data/_signals/_signal.py
+++ b/sumpf/_data/_signals/_signal.py
@@ -609,7 +609,7 @@ class Signal(SampledData):
                 corner = remainder / window_length
                 window[0] = corner
                 window[-1] = corner
-            square = numpy.square(self._channels)
+            square = numpy.square(self._channels, dtype=numpy.float64)  # the squares of integer samples might exceed the range of their data type
             if len(window) < self._length:
                 # compute the levels by convolving the squared signal with the window
                 for s, c in zip(square, channels):
-- 
2.43.0

