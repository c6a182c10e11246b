From d2b89c730228c4a0dd0c81d386a9c171287ec420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 01/88] fix: Stack.redocount returned the number of undos

---
 src/bgem/undo.py | 650 +++++++++++++++++++++++------------------------
 1 file changed, 325 insertions(+), 325 deletions(-)

diff --git a/src/bgem/undo.py b/src/bgem/undo.py
index d1ca510..7d2bcae 100644
--- a/src/bgem/undo.py
+++ b/src/bgem/undo.py
@@ -1,325 +1,325 @@
-#!/usr/bin/env python3
-# -*- coding: utf-8 -*-
-#
-# Copyright (c) 2011 David Townshend
-#
-# This program is free software; you can redistribute it and/or modify it
-# under the terms of the GNU General Public License as published by the
-# Free Software Foundation; either version 2 of the License, or (at your
-# option) any later version.
-#
-# This program is distributed in the hope that it will be useful, but
-# WITHOUT ANY WARRANTY; without even the implied warranty of MERCHANTABILITY
-# or FITNESS FOR A PARTICULAR PURPOSE.  See the GNU General Public License
-# for more details.
-#
-# You should have received a copy of the GNU General Public License along
-# with this program; if not, write to the Free Software Foundation, Inc.,
-# 675 Mass Ave, Cambridge, MA 02139, USA.
-
-__version__ = '0.5.1'
-__author__ = 'David Townshend'
-
-__all__ = ['undoable', 'group', 'Stack', 'stack', 'setstack']
-
-import contextlib
-
-from collections import deque
-
-class _Action:
-    ''' This represents an action which can be done and undone.
-    
-    It is the result of a call on an undoable function and has
-    three methods: ``do()``, ``undo()`` and ``text()``.  The first value
-    returned by the internal call in ``do()`` is the value which will 
-    subsequently be returned by ``text``.  Any remaining values are 
-    returned by ``do()``.
-    '''
-    def __init__(self, generator, args, kwargs):
-        self._generator = generator
-        self.args = args
-        self.kwargs = kwargs
-        self._text = ''
-
-    def do(self):
-        'Do or redo the action'
-        self._runner = self._generator(*self.args, **self.kwargs)
-        rets = next(self._runner)
-        if isinstance(rets, tuple):
-            self._text = rets[0]
-            return rets[1:]
-        elif rets is None:
-            self._text = ''
-            return None
-        else:
-            self._text = rets
-            return None
-
-    def undo(self):
-        'Undo the action'
-        try:
-            next(self._runner)
-        except StopIteration:
-            pass
-        # Delete it so that its not accidentally called again
-        del self._runner
-
-    def text(self):
-        'Return the descriptive text of the action'
-        return self._text
-
-
-def undoable(generator):
-    ''' Decorator which creates a new undoable action type. 
-    
-    This decorator should be used on a generator of the following format::
-    
-        @undoable
-        def operation(*args):
-            do_operation_code
-            yield 'descriptive text'
-            undo_operator_code
-    '''
-    def inner(*args, **kwargs):
-        action = _Action(generator, args, kwargs)
-        ret = action.do()
-        stack().append(action)
-        if isinstance(ret, tuple):
-            if len(ret) == 1:
-                return ret[0]
-            elif len(ret) == 0:
-                return None
-        return ret
-    return inner
-
-
-class _Group:
-    ''' A undoable group context manager. '''
-
-    def __init__(self, desc):
-        self._desc = desc
-        self._stack = []
-
-    def __enter__(self):
-        stack().setreceiver(self._stack)
-
-    def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_type is None:
-            stack().resetreceiver()
-            stack().append(self)
-        return False
-
-    def undo(self):
-        for undoable in reversed(self._stack):
-            undoable.undo()
-
-    def do(self):
-        for undoable in self._stack:
-            undoable.do()
-
-    def text(self):
-        return self._desc.format(count=len(self._stack))
-
-
-def group(desc):
-    ''' Return a context manager for grouping undoable actions. 
-    
-    All actions which occur within the group will be undone by a single call
-    of `stack.undo`, e.g.
-    
-    >>> @undoable
-    ... def operation(n):
-    ...     yield
-    ...     print(n)
-    >>> with group('text'):
-    ...     for n in range(3):
-    ...         operation(n)
-    >>> operation(3)
-    >>> stack().undo()
-    3
-    >>> stack().undo()
-    2
-    1
-    0
-    '''
-    return _Group(desc)
-
-
-class Stack:
-    ''' The main undo stack. 
-        
-    The two key features are the :func:`redo` and :func:`undo` methods. If an 
-    exception occurs during doing or undoing a undoable, the undoable
-    aborts and the stack is cleared to avoid any further data corruption. 
-    
-    The stack provides two properties for tracking actions: *docallback* 
-    and *undocallback*. Each of these allow a callback function to be set
-    which is called when an action is done or undone repectively. By default, 
-    they do nothing.
-    
-    >>> def done():
-    ...     print('Can now undo: {}'.format(stack().undotext()))
-    >>> def undone():
-    ...     print('Can now redo: {}'.format(stack().redotext()))
-    >>> stack().docallback = done
-    >>> stack().undocallback = undone
-    >>> @undoable
-    ... def action():
-    ...     yield 'An action'
-    >>> action()
-    Can now undo: Undo An action
-    >>> stack().undo()
-    Can now redo: Redo An action
-    >>> stack().redo()
-    Can now undo: Undo An action
-    
-    Setting them back to ``lambda: None`` will stop any further actions.
-    
-    >>> stack().docallback = stack().undocallback = lambda: None
-    >>> action()
-    >>> stack().undo()
-    
-    It is possible to mark a point in the undo history when the document
-    handled is saved. This allows the undo system to report whether a 
-    document has changed. The point is marked using :func:`savepoint` and
-    :func:`haschanged` returns whether or not the state has changed (either
-    by doing or undoing an action). Only one savepoint can be tracked,
-    marking a new one removes the old one.
-    
-    >>> stack().savepoint()
-    >>> stack().haschanged()
-    False
-    >>> action()
-    >>> stack().haschanged()
-    True
-    '''
-
-    def __init__(self):
-        self._undos = deque()
-        self._redos = deque()
-        self._receiver = self._undos
-        self._savepoint = None
-        self.undocallback = lambda: None
-        self.docallback = lambda: None
-
-    def canundo(self):
-        ''' Return *True* if undos are available '''
-        return len(self._undos) > 0
-
-    def canredo(self):
-        ''' Return *True* if redos are available '''
-        return len(self._redos) > 0
-
-    def redo(self):
-        ''' Redo the last undone action. 
-        
-        This is only possible if no other actions have occurred since the 
-        last undo call.
-        '''
-        if self.canredo():
-            undoable = self._redos.pop()
-            with self._pausereceiver():
-                try:
-                    undoable.do()
-                except:
-                    self.clear()
-                    raise
-                else:
-                    self._undos.append(undoable)
-            self.docallback()
-
-    def undo(self):
-        ''' Undo the last action. '''
-        if self.canundo():
-            undoable = self._undos.pop()
-            with self._pausereceiver():
-                try:
-                    undoable.undo()
-                except:
-                    self.clear()
-                    raise
-                else:
-                    self._redos.append(undoable)
-            self.undocallback()
-
-    def clear(self):
-        ''' Clear the undo list. '''
-        self._undos.clear()
-        self._redos.clear()
-        self._savepoint = None
-        self._receiver = self._undos
-
-    def undocount(self):
-        ''' Return the number of undos available. '''
-        return len(self._undos)
-
-    def redocount(self):
-        ''' Return the number of redos available. '''
-        return len(self._undos)
-
-    def undotext(self):
-        ''' Return a description of the next available undo. '''
-        if self.canundo():
-            return ('Undo ' + self._undos[-1].text()).strip()
-
-    def redotext(self):
-        ''' Return a description of the next available redo. '''
-        if self.canredo():
-            return ('Redo ' + self._redos[-1].text()).strip()
-
-    @contextlib.contextmanager
-    def _pausereceiver(self):
-        ''' Return a contect manager which temporarily pauses the receiver. '''
-        self.setreceiver([])
-        yield
-        self.resetreceiver()
-
-    def setreceiver(self, receiver=None):
-        ''' Set an object to receiver commands pushed onto the stack.
-        
-        By default it is the internal stack, but it can be set (usually
-        internally) to any object with an *append()* method.
-        '''
-        assert hasattr(receiver, 'append')
-        self._receiver = receiver
-
-    def resetreceiver(self):
-        ''' Reset the receiver to the internal stack.'''
-        self._receiver = self._undos
-
-    def append(self, action):
-        ''' Add a undoable to the stack, using ``receiver.append()``. '''
-        if self._receiver is not None:
-            self._receiver.append(action)
-        if self._receiver is self._undos:
-            self._redos.clear()
-            self.docallback()
-
-    def savepoint(self):
-        ''' Set the savepoint. '''
-        self._savepoint = self.undocount()
-
-    def haschanged(self):
-        ''' Return *True* if the state has changed since the savepoint. 
-        
-        This will always return *True* if the savepoint has not been set.
-        '''
-        return self._savepoint is None or self._savepoint != self.undocount()
-
-
-_stack = None
-
-def stack():
-    ''' Return the currently used stack.
-    
-    If no stack has been set, a new one is created and set.
-    '''
-    global _stack
-    if _stack is None:
-        _stack = Stack()
-    return _stack
-
-def setstack(stack):
-    ''' Set the undo stack to a specific `Stack` object.'''
-    global _stack
-    _stack = stack
+#!/usr/bin/env python3
+# -*- coding: utf-8 -*-
+#
+# Copyright (c) 2011 David Townshend
+#
+# This program is free software; you can redistribute it and/or modify it
+# under the terms of the GNU General Public License as published by the
+# Free Software Foundation; either version 2 of the License, or (at your
+# option) any later version.
+#
+# This program is distributed in the hope that it will be useful, but
+# WITHOUT ANY WARRANTY; without even the implied warranty of MERCHANTABILITY
+# or FITNESS FOR A PARTICULAR PURPOSE.  See the GNU General Public License
+# for more details.
+#
+# You should have received a copy of the GNU General Public License along
+# with this program; if not, write to the Free Software Foundation, Inc.,
+# 675 Mass Ave, Cambridge, MA 02139, USA.
+
+__version__ = '0.5.1'
+__author__ = 'David Townshend'
+
+__all__ = ['undoable', 'group', 'Stack', 'stack', 'setstack']
+
+import contextlib
+
+from collections import deque
+
+class _Action:
+    ''' This represents an action which can be done and undone.
+    
+    It is the result of a call on an undoable function and has
+    three methods: ``do()``, ``undo()`` and ``text()``.  The first value
+    returned by the internal call in ``do()`` is the value which will 
+    subsequently be returned by ``text``.  Any remaining values are 
+    returned by ``do()``.
+    '''
+    def __init__(self, generator, args, kwargs):
+        self._generator = generator
+        self.args = args
+        self.kwargs = kwargs
+        self._text = ''
+
+    def do(self):
+        'Do or redo the action'
+        self._runner = self._generator(*self.args, **self.kwargs)
+        rets = next(self._runner)
+        if isinstance(rets, tuple):
+            self._text = rets[0]
+            return rets[1:]
+        elif rets is None:
+            self._text = ''
+            return None
+        else:
+            self._text = rets
+            return None
+
+    def undo(self):
+        'Undo the action'
+        try:
+            next(self._runner)
+        except StopIteration:
+            pass
+        # Delete it so that its not accidentally called again
+        del self._runner
+
+    def text(self):
+        'Return the descriptive text of the action'
+        return self._text
+
+
+def undoable(generator):
+    ''' Decorator which creates a new undoable action type. 
+    
+    This decorator should be used on a generator of the following format::
+    
+        @undoable
+        def operation(*args):
+            do_operation_code
+            yield 'descriptive text'
+            undo_operator_code
+    '''
+    def inner(*args, **kwargs):
+        action = _Action(generator, args, kwargs)
+        ret = action.do()
+        stack().append(action)
+        if isinstance(ret, tuple):
+            if len(ret) == 1:
+                return ret[0]
+            elif len(ret) == 0:
+                return None
+        return ret
+    return inner
+
+
+class _Group:
+    ''' A undoable group context manager. '''
+
+    def __init__(self, desc):
+        self._desc = desc
+        self._stack = []
+
+    def __enter__(self):
+        stack().setreceiver(self._stack)
+
+    def __exit__(self, exc_type, exc_val, exc_tb):
+        if exc_type is None:
+            stack().resetreceiver()
+            stack().append(self)
+        return False
+
+    def undo(self):
+        for undoable in reversed(self._stack):
+            undoable.undo()
+
+    def do(self):
+        for undoable in self._stack:
+            undoable.do()
+
+    def text(self):
+        return self._desc.format(count=len(self._stack))
+
+
+def group(desc):
+    ''' Return a context manager for grouping undoable actions. 
+    
+    All actions which occur within the group will be undone by a single call
+    of `stack.undo`, e.g.
+    
+    >>> @undoable
+    ... def operation(n):
+    ...     yield
+    ...     print(n)
+    >>> with group('text'):
+    ...     for n in range(3):
+    ...         operation(n)
+    >>> operation(3)
+    >>> stack().undo()
+    3
+    >>> stack().undo()
+    2
+    1
+    0
+    '''
+    return _Group(desc)
+
+
+class Stack:
+    ''' The main undo stack. 
+        
+    The two key features are the :func:`redo` and :func:`undo` methods. If an 
+    exception occurs during doing or undoing a undoable, the undoable
+    aborts and the stack is cleared to avoid any further data corruption. 
+    
+    The stack provides two properties for tracking actions: *docallback* 
+    and *undocallback*. Each of these allow a callback function to be set
+    which is called when an action is done or undone repectively. By default, 
+    they do nothing.
+    
+    >>> def done():
+    ...     print('Can now undo: {}'.format(stack().undotext()))
+    >>> def undone():
+    ...     print('Can now redo: {}'.format(stack().redotext()))
+    >>> stack().docallback = done
+    >>> stack().undocallback = undone
+    >>> @undoable
+    ... def action():
+    ...     yield 'An action'
+    >>> action()
+    Can now undo: Undo An action
+    >>> stack().undo()
+    Can now redo: Redo An action
+    >>> stack().redo()
+    Can now undo: Undo An action
+    
+    Setting them back to ``lambda: None`` will stop any further actions.
+    
+    >>> stack().docallback = stack().undocallback = lambda: None
+    >>> action()
+    >>> stack().undo()
+    
+    It is possible to mark a point in the undo history when the document
+    handled is saved. This allows the undo system to report whether a 
+    document has changed. The point is marked using :func:`savepoint` and
+    :func:`haschanged` returns whether or not the state has changed (either
+    by doing or undoing an action). Only one savepoint can be tracked,
+    marking a new one removes the old one.
+    
+    >>> stack().savepoint()
+    >>> stack().haschanged()
+    False
+    >>> action()
+    >>> stack().haschanged()
+    True
+    '''
+
+    def __init__(self):
+        self._undos = deque()
+        self._redos = deque()
+        self._receiver = self._undos
+        self._savepoint = None
+        self.undocallback = lambda: None
+        self.docallback = lambda: None
+
+    def canundo(self):
+        ''' Return *True* if undos are available '''
+        return len(self._undos) > 0
+
+    def canredo(self):
+        ''' Return *True* if redos are available '''
+        return len(self._redos) > 0
+
+    def redo(self):
+        ''' Redo the last undone action. 
+        
+        This is only possible if no other actions have occurred since the 
+        last undo call.
+        '''
+        if self.canredo():
+            undoable = self._redos.pop()
+            with self._pausereceiver():
+                try:
+                    undoable.do()
+                except:
+                    self.clear()
+                    raise
+                else:
+                    self._undos.append(undoable)
+            self.docallback()
+
+    def undo(self):
+        ''' Undo the last action. '''
+        if self.canundo():
+            undoable = self._undos.pop()
+            with self._pausereceiver():
+                try:
+                    undoable.undo()
+                except:
+                    self.clear()
+                    raise
+                else:
+                    self._redos.append(undoable)
+            self.undocallback()
+
+    def clear(self):
+        ''' Clear the undo list. '''
+        self._undos.clear()
+        self._redos.clear()
+        self._savepoint = None
+        self._receiver = self._undos
+
+    def undocount(self):
+        ''' Return the number of undos available. '''
+        return len(self._undos)
+
+    def redocount(self):
+        ''' Return the number of redos available. '''
+        return len(self._redos)
+
+    def undotext(self):
+        ''' Return a description of the next available undo. '''
+        if self.canundo():
+            return ('Undo ' + self._undos[-1].text()).strip()
+
+    def redotext(self):
+        ''' Return a description of the next available redo. '''
+        if self.canredo():
+            return ('Redo ' + self._redos[-1].text()).strip()
+
+    @contextlib.contextmanager
+    def _pausereceiver(self):
+        ''' Return a contect manager which temporarily pauses the receiver. '''
+        self.setreceiver([])
+        yield
+        self.resetreceiver()
+
+    def setreceiver(self, receiver=None):
+        ''' Set an object to receiver commands pushed onto the stack.
+        
+        By default it is the internal stack, but it can be set (usually
+        internally) to any object with an *append()* method.
+        '''
+        assert hasattr(receiver, 'append')
+        self._receiver = receiver
+
+    def resetreceiver(self):
+        ''' Reset the receiver to the internal stack.'''
+        self._receiver = self._undos
+
+    def append(self, action):
+        ''' Add a undoable to the stack, using ``receiver.append()``. '''
+        if self._receiver is not None:
+            self._receiver.append(action)
+        if self._receiver is self._undos:
+            self._redos.clear()
+            self.docallback()
+
+    def savepoint(self):
+        ''' Set the savepoint. '''
+        self._savepoint = self.undocount()
+
+    def haschanged(self):
+        ''' Return *True* if the state has changed since the savepoint. 
+        
+        This will always return *True* if the savepoint has not been set.
+        '''
+        return self._savepoint is None or self._savepoint != self.undocount()
+
+
+_stack = None
+
+def stack():
+    ''' Return the currently used stack.
+    
+    If no stack has been set, a new one is created and set.
+    '''
+    global _stack
+    if _stack is None:
+        _stack = Stack()
+    return _stack
+
+def setstack(stack):
+    ''' Set the undo stack to a specific `Stack` object.'''
+    global _stack
+    _stack = stack
-- 
2.43.0


From f89b252e81deee5dd765b63b4e7f633f76371db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 02/88] fix: Stack.haschanged missed a change when an undone
 action was replaced by a different one

---
 src/bgem/undo.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/bgem/undo.py b/src/bgem/undo.py
index 7d2bcae..a0563bd 100644
--- a/src/bgem/undo.py
+++ b/src/bgem/undo.py
@@ -297,14 +297,18 @@ class Stack:
 
     def savepoint(self):
         ''' Set the savepoint. '''
-        self._savepoint = self.undocount()
+        # Mark the action itself, number of undos can repeat for a different history.
+        self._savepoint = (self._last_action(),)
 
     def haschanged(self):
         ''' Return *True* if the state has changed since the savepoint. 
         
         This will always return *True* if the savepoint has not been set.
         '''
-        return self._savepoint is None or self._savepoint != self.undocount()
+        return self._savepoint is None or self._savepoint[0] is not self._last_action()
+
+    def _last_action(self):
+        return self._undos[-1] if self._undos else None
 
 
 _stack = None
-- 
2.43.0


From 00c1f25ff16fab9194d73816ad0af1e72e2a17e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 03/88] fix: undo group nested in other group or left by an
 exception broke recording of further actions

---
 src/bgem/undo.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bgem/undo.py b/src/bgem/undo.py
index a0563bd..cddb5c9 100644
--- a/src/bgem/undo.py
+++ b/src/bgem/undo.py
@@ -101,11 +101,14 @@ class _Group:
         self._stack = []
 
     def __enter__(self):
+        # Nested groups have to return to the enclosing group.
+        self._outer_receiver = stack()._receiver
         stack().setreceiver(self._stack)
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_type is None:
-            stack().resetreceiver()
+        stack()._receiver = self._outer_receiver
+        # Actions completed before an exception must stay undoable.
+        if exc_type is None or self._stack:
             stack().append(self)
         return False
 
-- 
2.43.0


From f03b525133b1657af3e4501c48121841ef26d566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:33 +0000
Subject: [PATCH 04/88] fix: undo, redo and clear silently switched on
 recording that was disabled

---
 src/bgem/undo.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bgem/undo.py b/src/bgem/undo.py
index cddb5c9..bff6c4d 100644
--- a/src/bgem/undo.py
+++ b/src/bgem/undo.py
@@ -250,7 +250,6 @@ class Stack:
         self._undos.clear()
         self._redos.clear()
         self._savepoint = None
-        self._receiver = self._undos
 
     def undocount(self):
         ''' Return the number of undos available. '''
@@ -273,9 +272,12 @@ class Stack:
     @contextlib.contextmanager
     def _pausereceiver(self):
         ''' Return a contect manager which temporarily pauses the receiver. '''
+        receiver = self._receiver
         self.setreceiver([])
-        yield
-        self.resetreceiver()
+        try:
+            yield
+        finally:
+            self._receiver = receiver
 
     def setreceiver(self, receiver=None):
         ''' Set an object to receiver commands pushed onto the stack.
-- 
2.43.0


From 63c43ff081df69ce2d3a684c5d7961db8e7dddf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:10 +0000
Subject: [PATCH 05/88] fix: closest_candidates returned unused slots when all
 boxes were removed and missed zero size boxes

---
 src/bgem/polygons/aabb_lookup.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bgem/polygons/aabb_lookup.py b/src/bgem/polygons/aabb_lookup.py
index ea788f6..4fc5bbb 100644
--- a/src/bgem/polygons/aabb_lookup.py
+++ b/src/bgem/polygons/aabb_lookup.py
@@ -72,9 +72,10 @@ class AABB_Lookup:
         :return: List of IDs.
         """
         boxes = self.boxes[:self.n_boxes, :]
-        if boxes.shape[0] == 0 :
+        if not np.any(boxes < self.inf):
+            # empty table or all boxes removed
             return []
-        inf_dists = np.max(np.maximum(self.boxes[:, 0:2] - point, point - self.boxes[:, 2:4]), axis=1)
+        inf_dists = np.max(np.maximum(boxes[:, 0:2] - point, point - boxes[:, 2:4]), axis=1)
         if np.amin(inf_dists) > 0.0:
             # closest box not containing the point
             i_closest = np.argmin(inf_dists)
@@ -89,7 +90,7 @@ class AABB_Lookup:
         #except:
         #    pass
         l2_max = np.sqrt(2) * l_inf_max
-        return np.where(inf_dists < l2_max)[0]
+        return np.where(inf_dists <= l2_max)[0]
 
 
     def intersect_candidates(self, box):
-- 
2.43.0


From 98fa1841c25098632411abd61f8485231b79a524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:44 +0000
Subject: [PATCH 06/88] fix: removing a segment between outer and inner wire
 lost the inner wire with a dendrite and nested wires not adjacent to it

---
 src/bgem/polygons/decomp.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/bgem/polygons/decomp.py b/src/bgem/polygons/decomp.py
index 4562395..9a20015 100644
--- a/src/bgem/polygons/decomp.py
+++ b/src/bgem/polygons/decomp.py
@@ -517,11 +517,14 @@ class Decomposition:
             # childs of the orig wire are in outer wire
             for ch in list(a_wire.childs):
                 ch.set_parent(outer_wire)
-            # possible wires in the new inner_wire bubble
-            for seg, side in inner_wire.segments():
-                side_wire = seg.wire[1-side]
-                assert side_wire == inner_wire or inner_wire.contains_wire(side_wire)
+            # possible wires in the new inner_wire bubble, including those not adjacent to inner_wire
+            queue = inner_wire.neighbors()
+            while queue:
+                side_wire = queue.pop()
+                if side_wire == inner_wire or side_wire.parent == inner_wire:
+                    continue
                 side_wire.set_parent(inner_wire)
+                queue.extend(side_wire.neighbors())
 
             #self._update_wire_parents(orig_parent, outer_wire, inner_wire)
 
-- 
2.43.0


From 227f16b45295a46fa5ad28283a0399420eb1d78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 07/88] fix: new line did not snap to free points lying on it

---
 src/bgem/polygons/polygons.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 79ae31a..e693634 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -480,6 +480,7 @@ class PolygonDecomposition:
         box = aabb_lookup.make_aabb([a_pt.xy, b_pt.xy], margin=self.tolerance)
         candidates = self.segments_lookup.intersect_candidates(box)
         candidate_pt = {pt for seg_id in candidates for pt in self.segments[seg_id].vtxs}
+        candidate_pt |= {self.points[pt_id] for pt_id in self.points_lookup.intersect_candidates(box)}
         candidate_pt = candidate_pt.difference(omit)
         # new line close to existing vertices, snap to them
         for pt in candidate_pt:
-- 
2.43.0


From abfb9153e1596e32bbe4806e23c219128833d8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 08/88] fix: snapping between two close disjoint segments
 failed or moved the point far away

---
 src/bgem/polygons/polygons.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index e693634..b2ae964 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -396,6 +396,9 @@ class PolygonDecomposition:
                 db, seg_b, tb = close_segments[1]
                 xa, ua = seg_a.vtxs[out_vtx].xy, seg_a.vector
                 xb, ub = seg_b.vtxs[out_vtx].xy, seg_b.vector
+                if not set(seg_a.point_ids()) & set(seg_b.point_ids()):
+                    # two close disjoint segments, possibly parallel; no way to get away from the other one
+                    return (1, seg_a, ta)
                 nb = np.array([ub[1], -ub[0]])
                 nb /= np.linalg.norm(nb)
                 if nb @ (point - xb) < 0:
-- 
2.43.0


From 47264881d29657bc6addaba249f29499e9c1ec08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:52 +0000
Subject: [PATCH 09/88] fix: undo of adding an already existing segment removed
 the segment

---
 src/bgem/polygons/polygons.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index b2ae964..10e17f8 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -639,11 +639,14 @@ class PolygonDecomposition:
     def _add_segment(self, a_pt, b_pt):
         a_pt = self.points[a_pt.id]
         b_pt = self.points[b_pt.id]
+        n_segments = len(self.segments)
         seg = self.decomp.new_segment(a_pt, b_pt)
+        is_new = len(self.segments) > n_segments
         self.segments_lookup.add_object(seg.id, aabb_lookup.make_aabb([a_pt.xy, b_pt.xy], margin=self.tolerance))
         yield "Add segment", seg
 
-        self._rm_segment(seg)
+        if is_new:
+            self._rm_segment(seg)
 
     @undo.undoable
     def _rm_point(self, pt):
-- 
2.43.0


From e1458220ae1a67088a22a7267243f8114b6a1daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 10/88] fix: undo of removing or joining lost attributes of
 points, segments and polygons

---
 src/bgem/polygons/polygons.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 10e17f8..48f8ace 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -655,16 +655,21 @@ class PolygonDecomposition:
         self.decomp.remove_free_point(pt)
         yield "Remove point"
 
-        self._add_point(pt.xy, pt.poly)
+        new_pt = self._add_point(pt.xy, pt.poly)
+        new_pt.attr = pt.attr
 
     @undo.undoable
     def _rm_segment(self, seg):
         seg = self.segments[seg.id]
+        polygon_attrs = [poly.attr for poly in seg.polygons()]
         self.segments_lookup.rm_object(seg.id)
         self.decomp.delete_segment(seg)
         yield "Remove segment"
 
-        self._add_segment(seg.vtxs[0], seg.vtxs[1])
+        new_seg = self._add_segment(seg.vtxs[0], seg.vtxs[1])
+        new_seg.attr = seg.attr
+        for poly, attr in zip(new_seg.polygons(), polygon_attrs):
+            poly.attr = attr
 
     @undo.undoable
     def _split_segment(self, seg, mid_pt):
@@ -687,7 +692,8 @@ class PolygonDecomposition:
         self.decomp.join_segments(mid_pt, seg0, seg1)
         yield "Join segments", mid_pt
 
-        self._split_segment(seg0, mid_pt)
+        new_seg = self._split_segment(seg0, mid_pt)
+        new_seg.attr = seg1.attr
 
     @undo.undoable
     def set_attr(self, obj, attr):
-- 
2.43.0


From f0c7c1d5092db3979bdeaf3c891261f3b9ee0929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:07 +0000
Subject: [PATCH 11/88] fix: joined segment kept the direction vector and
 bounding box of its part, further lines missed it

---
 src/bgem/polygons/decomp.py   | 1 +
 src/bgem/polygons/polygons.py | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/bgem/polygons/decomp.py b/src/bgem/polygons/decomp.py
index 9a20015..9ff1145 100644
--- a/src/bgem/polygons/decomp.py
+++ b/src/bgem/polygons/decomp.py
@@ -320,6 +320,7 @@ class Decomposition:
         seg0.next[seg_side_next] = (seg0, seg_side_prev)
 
         seg0.vtxs[seg0_in_vtx] = seg1.vtxs[seg1_in_vtx]
+        seg0.update_vector()
         if b_seg1_insert is None:
             assert seg0.is_dendrite()
             seg0.connect_free_vtx(seg0_in_vtx, seg0.wire[out_vtx])
diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 48f8ace..943a331 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -690,6 +690,9 @@ class PolygonDecomposition:
         seg1 = self.segments[seg1.id]
         self.segments_lookup.rm_object(seg1.id)
         self.decomp.join_segments(mid_pt, seg0, seg1)
+        self.segments_lookup.add_object(seg0.id,
+                                        aabb_lookup.make_aabb([seg0.vtxs[0].xy, seg0.vtxs[1].xy],
+                                                              margin=self.tolerance))
         yield "Join segments", mid_pt
 
         new_seg = self._split_segment(seg0, mid_pt)
-- 
2.43.0


From 8daa945fde3c4f039a97498a7b6699f7b9b42f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:15 +0000
Subject: [PATCH 12/88] fix: joining segments of opposite orientation swapped
 the wires of their sides

---
 src/bgem/polygons/decomp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bgem/polygons/decomp.py b/src/bgem/polygons/decomp.py
index 9ff1145..9452f0a 100644
--- a/src/bgem/polygons/decomp.py
+++ b/src/bgem/polygons/decomp.py
@@ -331,7 +331,8 @@ class Decomposition:
         for side in [left_side, right_side]:
             wire = seg1.wire[side]
             if wire.segment == (seg1, side):
-                wire.segment = (seg0, side)
+                # segments may have opposite orientation
+                wire.segment = (seg0, side if seg0_in_vtx == seg1_in_vtx else 1 - side)
 
         # fix pt_to_seg
         self.pt_to_seg[seg0.point_ids()] = seg0
-- 
2.43.0


From 600f28827046924cf28ba0de2bc48539c160337b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 13/88] fix: displacement check missed jumped over components
 and moving of free points, moved points were not found at new position

---
 src/bgem/polygons/polygons.py | 48 ++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 943a331..13d95ef 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -193,7 +193,6 @@ class PolygonDecomposition:
         param: points: List of Points to move.
         param: displacement: Numpy array, 2D vector of displacement to add to the points,
                 identical for the whole displaced block.
-        TODO: Check fails for internal wires and nonconvex poygons.
         :return: True for no, collision; False if any collision is detected.
         """
 
@@ -208,17 +207,11 @@ class PolygonDecomposition:
                 moving_segs.add( (seg, side) )
         self.decomp.last_polygon_change = (decomp.PolygonChange.shape, changed_polygons, None)
 
-        # Todo: For the outer wire of the moving segments, add parent and its holes to the envelope.
-        # Outer wire is the maximal parent wire for the set of all wires connected to moving edges.
-        boundary_wires = [poly.outer_wire for poly in changed_polygons]
-        for wire in boundary_wires:
-            for child in wire.childs:
-                boundary_wires.append(child)
-        envelope=[]
-        for wire in boundary_wires:
-            for seg, side in wire.segments():
-                if (seg, side) not in moving_segs and (seg, 1 - side) not in moving_segs:
-                        envelope.append(seg)
+        displacement = np.array(displacement, dtype=float)
+        moving_pts = set(points)
+        fixed_pts = [pt for pt in self.points.values() if pt not in moving_pts]
+        # Any segment without a moving vertex is an obstacle, including other components of the drawing.
+        envelope = [seg for seg in self.segments.values() if not moving_pts.intersection(seg.vtxs)]
 
         for e_seg in envelope:
             # Check collision of points with envelope.
@@ -241,8 +234,33 @@ class PolygonDecomposition:
                 if t0 is not None:
                     return False
 
+        # Check collision of points with area swept by moving segments.
+        for (seg, side) in moving_segs:
+            a, b = seg.vtxs[side].xy, seg.vtxs[1 - side].xy
+            if (seg, 1-side) in moving_segs:
+                swept_area = [a, a + displacement, b + displacement, b]
+            else:
+                swept_area = [a, a + displacement, b]
+                # Moving points with respect to the segment moving just by one vertex.
+                if any(self._in_convex([a, b, b - displacement], pt.xy) for pt in points):
+                    return False
+            if any(self._in_convex(swept_area, pt.xy) for pt in fixed_pts):
+                return False
+
         return True
 
+    @staticmethod
+    def _in_convex(corners, xy):
+        """
+        True if the point is strictly inside of the convex polygon.
+        """
+        sides = []
+        for a, b in zip(corners, corners[1:] + corners[:1]):
+            (ux, uy), (vx, vy) = b - a, xy - a
+            sides.append(ux * vy - uy * vx)
+        eps = 1e-10
+        return min(sides) > eps or max(sides) < -eps
+
     def move_points(self, points, displacement):
         """
         Move given points by given displacement vector. Assumes no intersections. But possible
@@ -253,6 +271,12 @@ class PolygonDecomposition:
         """
         for pt in points:
             pt.move(displacement)
+        # update lookups
+        for pt in points:
+            self.points_lookup.add_object(pt.id, aabb_lookup.make_aabb([pt.xy], margin=self.tolerance))
+            for seg, _ in pt.segments():
+                self.segments_lookup.add_object(seg.id, aabb_lookup.make_aabb([seg.vtxs[0].xy, seg.vtxs[1].xy],
+                                                                              margin=self.tolerance))
 
 
     def get_last_polygon_changes(self):
-- 
2.43.0


From 14d2c905872cab9780a3d595bbe3f0c1a19be949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:34 +0000
Subject: [PATCH 14/88] fix: merging of close intersections failed without
 attributes, lost them and broke undo

---
 src/bgem/polygons/polygons.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 13d95ef..26a9c7f 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -544,14 +544,15 @@ class PolygonDecomposition:
         b_diff = (a.xy - b.xy) #/2
         #a_can_move = self.check_displacment([a],  a_diff)
         b_can_move = self.check_displacment([b],  b_diff)
-        b_can_move = b_can_move and not b.segment[0].attr.boundary
+        b_can_move = b_can_move and (b.is_free() or not getattr(b.segment[0].attr, 'boundary', False))
         if b_can_move:
             #a.move(a_diff)
             for seg, b_idx in list(b.segments()):
-                seg_vtxs = seg.vtxs
+                seg_vtxs = list(seg.vtxs)
                 self._rm_segment(seg)
                 seg_vtxs[b_idx] = a
-                self._add_segment(*seg_vtxs)
+                new_seg = self._add_segment(*seg_vtxs)
+                self.set_attr(new_seg, seg.attr)
             self._rm_point(b)
             return a
         else:
-- 
2.43.0


From 9ed2c36640c23839c9a8660587f22a2876babd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 15/88] fix: merging decompositions missed vertices on added
 segments and polygons not adjacent to them

---
 src/bgem/polygons/merge.py | 92 +++++++++++++++++++++++++-------------
 1 file changed, 60 insertions(+), 32 deletions(-)

diff --git a/src/bgem/polygons/merge.py b/src/bgem/polygons/merge.py
index 944a682..ecd4367 100644
--- a/src/bgem/polygons/merge.py
+++ b/src/bgem/polygons/merge.py
@@ -1,4 +1,6 @@
+import numpy.linalg as la
 from . import polygons
+from . import aabb_lookup
 from .decomp import PolygonChange, in_vtx, out_vtx, right_side, left_side
 
 def deep_copy(self):
@@ -39,6 +41,24 @@ def deep_copy(self):
     return decomp, id_maps
 
 
+def points_on_line(decomp, a_pt, b_pt):
+    """
+    Existing points of the decomposition on the line from a_pt to b_pt, including both ends and sorted along the line.
+    """
+    vec = b_pt.xy - a_pt.xy
+    box = aabb_lookup.make_aabb([a_pt.xy, b_pt.xy], margin=decomp.tolerance)
+    inner_points = []
+    for pt_id in decomp.points_lookup.intersect_candidates(box):
+        pt = decomp.points[pt_id]
+        if pt == a_pt or pt == b_pt:
+            continue
+        t = decomp.seg_project_point(vec, a_pt.xy, pt.xy)
+        if la.norm(a_pt.xy + t * vec - pt.xy) < decomp.tolerance:
+            inner_points.append((t, pt))
+    inner_points.sort(key=lambda item: item[0])
+    return [a_pt, *[pt for t, pt in inner_points], b_pt]
+
+
 def intersect_single(decomp, other, merge_tol = 1e-10):
     """
     TODO: move to separate intersection module.
@@ -98,34 +118,40 @@ def intersect_single(decomp, other, merge_tol = 1e-10):
         other_right_poly, other_left_poly = seg.polygons()
         # print(decomp)
         # print('add line {} {}'.format(a, b))
-        line_div = decomp._add_line_seg_intersections(new_a_pt, new_b_pt)
-        # TODO: modify to changes in _add_line_seg_intersections
-        # we have no seg_b, and the new line may be curved by snapping.
-        for t, (mid_pt, seg_a, seg_b) in line_div.items():
-            maps_self[1][seg_b.id] = maps_self[1].get(seg_a.id, seg_a.id)
-            assert seg_a.id not in maps_other[1]
-            #maps_other[1][seg_b.id] = maps_other[1].get(seg_a.id, None)  # Should still be None, unless there is common edge
-
-        for new_seg, change, side in decomp._add_line_new_segments(new_a_pt, new_b_pt, line_div):
-            maps_other[1][new_seg.id] = seg.id
-            #maps_self[1].setdefault(new_seg.id, None)
-
-            # Update polygon maps for a segment which is part of segment in other decomposition.
-            change_type, orig_poly, new_poly = change
-            assert change_type not in [PolygonChange.remove, PolygonChange.join]
-            if change_type == PolygonChange.add or change_type == PolygonChange.split:
-                # Fix maps for changed polygons
-                maps_self[2][new_poly.id] = maps_self[2].get(orig_poly.id, orig_poly.id)
-                maps_other[2][new_poly.id] = maps_other[2].get(orig_poly.id, None)
-            # Just omit changes: PolygonChange.shape, PolygonChange.none
-
-            # Partial fill of maps_other[2]
-            if side:
-                r, l = right_side, left_side
-            else:
-                l, r = right_side, left_side
-            maps_other[2][new_seg.wire[r].polygon.id] = other_right_poly.id
-            maps_other[2][new_seg.wire[l].polygon.id] = other_left_poly.id
+        # segment can pass through existing points of 'self', these can not be found as segment intersections
+        line_points = points_on_line(decomp, new_a_pt, new_b_pt)
+        for part_a_pt, part_b_pt in zip(line_points, line_points[1:]):
+            line_div = decomp._add_line_seg_intersections(part_a_pt, part_b_pt)
+            # TODO: modify to changes in _add_line_seg_intersections
+            # we have no seg_b, and the new line may be curved by snapping.
+            for t, (mid_pt, seg_a, seg_b) in line_div.items():
+                maps_self[1][seg_b.id] = maps_self[1].get(seg_a.id, seg_a.id)
+                assert seg_a.id not in maps_other[1]
+                #maps_other[1][seg_b.id] = maps_other[1].get(seg_a.id, None)  # Should still be None, unless there is common edge
+
+            for new_seg, change, side in decomp._add_line_new_segments(part_a_pt, part_b_pt, line_div):
+                maps_other[1][new_seg.id] = seg.id
+                #maps_self[1].setdefault(new_seg.id, None)
+
+                # Update polygon maps for a segment which is part of segment in other decomposition.
+                change_type, orig_poly, new_poly = change
+                assert change_type not in [PolygonChange.remove, PolygonChange.join]
+                if change_type == PolygonChange.add or change_type == PolygonChange.split:
+                    # Fix maps for changed polygons
+                    maps_self[2][new_poly.id] = maps_self[2].get(orig_poly.id, orig_poly.id)
+                    maps_other[2][new_poly.id] = maps_other[2].get(orig_poly.id, None)
+                # Just omit changes: PolygonChange.shape, PolygonChange.none
+
+                # Partial fill of maps_other[2]
+                if side:
+                    r, l = right_side, left_side
+                else:
+                    l, r = right_side, left_side
+                maps_other[2][new_seg.wire[r].polygon.id] = other_right_poly.id
+                maps_other[2][new_seg.wire[l].polygon.id] = other_left_poly.id
+
+    # The unbounded polygon need not to be adjacent to any segment of 'other'.
+    maps_other[2].setdefault(decomp.outer_polygon.id, other.outer_polygon.id)
 
     # Fill remaining maps_other[2] items using DFS
     for poly_id in decomp.polygons.keys():
@@ -136,10 +162,12 @@ def intersect_single(decomp, other, merge_tol = 1e-10):
             while stack:
                 p_id = stack.pop(-1)
                 maps_other[2][p_id] = other_poly
-                for seg, side in decomp.polygons[p_id].outer_wire.segments():
-                    ngh_poly = seg.wire[1 - side].polygon
-                    if maps_other[2][ngh_poly.id] is None:
-                        stack.append(ngh_poly.id)
+                outer_wire = decomp.polygons[p_id].outer_wire
+                for wire in [outer_wire, *outer_wire.childs]:
+                    for seg, side in wire.segments():
+                        ngh_poly = seg.wire[1 - side].polygon
+                        if maps_other[2][ngh_poly.id] is None:
+                            stack.append(ngh_poly.id)
 
     # # Check
     # for p in decomp.polygons.values():
-- 
2.43.0


From ea22dcc33602d5c0b2673054e06f05cd0fcf1f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 16/88] fix: equidistant knots of a range given by integers
 were truncated to integers

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 89a67be..abe520e 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -37,7 +37,7 @@ class SplineBasis:
         :return: SplineBasis object.
         """
         n = n_intervals + 2 * degree + 1
-        knots = np.array((knot_range[0],) * n)
+        knots = np.array((knot_range[0],) * n, dtype=float)
         diff = (knot_range[1] - knot_range[0]) / n_intervals
         for i in range(degree + 1, n - degree):
             knots[i] = (i - degree) * diff + knot_range[0]
-- 
2.43.0


From dbb78e968f421435a41eb50a352c4e0365eae8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 17/88] fix: linear poles did not give f(x) = x on domains not
 starting at zero

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index abe520e..fc878c7 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -235,7 +235,7 @@ class SplineBasis:
         Return poles of basis functions to get a f(x) = x.
         :return:
         """
-        poles= [ 0.0 ]
+        poles= [ self.knots[0] ]
         for i in range(self.size-1):
             pp = poles[-1] + (self.knots[i + self.degree + 1] - self.knots[i  + 1]) / float(self.degree)
             poles.append(pp)
-- 
2.43.0


From add5ca8069c87e28c601ef9a40c1029297243c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 18/88] fix: derivative of piecewise constant basis functions
 failed

---
 src/bgem/bspline/bspline.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index fc878c7..1047a9e 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -214,6 +214,8 @@ class SplineBasis:
         assert 0 <= i_base < self.size
         deg = self.degree
         i = i_base
+        if deg == 0:
+            return 0.0
         if i_base == self.size - 2 and t == self.domain[1]:
             return - deg  / (self.knots[i + deg + 1] - self.knots[i + 1])
 
-- 
2.43.0


From 943ebee63d7cb6d023dbdf9ae9ea2fd77d0561a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 19/88] fix: rational curves and surfaces could not be created
 from lists of poles

---
 src/bgem/bspline/bspline.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 1047a9e..173d5aa 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -383,8 +383,8 @@ class Curve:
 
         if rational:
             # precomputations
-            self._weights = poles[:, self.dim]
-            self._poles = (poles[:, 0:self.dim].T * self._weights ).T
+            self._weights = self.poles[:, self.dim]
+            self._poles = (self.poles[:, 0:self.dim].T * self._weights ).T
 
         # BIH tree
         self._boxes = None
@@ -515,8 +515,8 @@ class Surface:
         # Rational surface indicator.
         if rational:
             # precomputations
-            self._weights = poles[:, :, self.dim]
-            self._poles = (poles[:, :, 0:self.dim].T * self._weights.T ).T
+            self._weights = self.poles[:, :, self.dim]
+            self._poles = (self.poles[:, :, 0:self.dim].T * self._weights.T ).T
 
     @property
     def u_basis(self):
-- 
2.43.0


From 6b17a4b661e36c832a2f88061fc38b014e8010c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 20/88] fix: bounding boxes of curves and surfaces assumed
 degree 2 and took weights for a coordinate

---
 src/bgem/bspline/bspline.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 173d5aa..209922f 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -436,7 +436,8 @@ class Curve:
         Return Axes Aligned Bounding Box of the poles, which should be also bounding box of the curve itself.
         :return: ( min_corner, max_corner); Box corners are numpy arryas of dimension D.
         """
-        return np.array( [np.amin(self.poles, axis=0), np.amax(self.poles, axis=0)] )
+        poles = self.poles[:, 0:self.dim]
+        return np.array( [np.amin(poles, axis=0), np.amax(poles, axis=0)] )
 
     def bounding_boxes(self):
         """
@@ -445,7 +446,8 @@ class Curve:
         :return:
         """
         tree = bih.BIH()
-        boxes = [bih.AABB(self.poles[it:it + 3, :].tolist()) for it in range(self.basis.n_intervals)]
+        n_loc = self.basis.degree + 1
+        boxes = [bih.AABB(self.poles[it:it + n_loc, 0:self.dim].tolist()) for it in range(self.basis.n_intervals)]
         tree.add_boxes(boxes)
         tree.construct()
 
@@ -587,7 +589,8 @@ class Surface:
         :return: ( min_corner, max_corner); Box corners are numpy arryas of dimension D.
         TODO: test
         """
-        return np.array( [np.amin(self.poles, axis=(0,1)), np.amax(self.poles, axis=(0,1))] )
+        poles = self.poles[:, :, 0:self.dim]
+        return np.array( [np.amin(poles, axis=(0,1)), np.amax(poles, axis=(0,1))] )
 
 
     def bounding_boxes(self):
@@ -599,14 +602,15 @@ class Surface:
         tree = bih.BIH()
         n_patch = self.u_basis.n_intervals * self.v_basis.n_intervals
 
-        patch_poles = np.zeros([9, 3, n_patch])
+        n_u_loc, n_v_loc = self.u_basis.degree + 1, self.v_basis.degree + 1
+        patch_poles = np.zeros([n_u_loc * n_v_loc, self.dim, n_patch])
         i_patch = 0
         for iu in range(self.u_basis.n_intervals):
             for iv in range(self.v_basis.n_intervals):
                 n_points = 0
-                for i in range(0, 3):
-                    for j in range(0, 3):
-                        patch_poles[n_points, :, i_patch] = self.poles[iu + i, iv + j, :]
+                for i in range(0, n_u_loc):
+                    for j in range(0, n_v_loc):
+                        patch_poles[n_points, :, i_patch] = self.poles[iu + i, iv + j, 0:self.dim]
                         n_points += 1
                 assert i_patch == self.patch_pos2id(iu, iv)
                 i_patch += 1
-- 
2.43.0


From 3eb9e1cd67f9b3a584fba143665fb27d7d2f939e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 21/88] fix: copy of a rational surface lost its weights

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 209922f..10e2f53 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -572,7 +572,7 @@ class Surface:
         u_basis = copy.copy(self.u_basis)
         v_basis = copy.copy(self.v_basis)
         poles = copy.copy(self.poles)
-        return Surface( ( u_basis, v_basis), poles)
+        return Surface( ( u_basis, v_basis), poles, self.rational)
 
     def eval_array(self, uv_points):
         """
-- 
2.43.0


From cc697979e47a385d7d79b60d099f28dc3cdf0216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 22/88] fix: z bounds of Z_Surface box were swapped by negative
 z scale

---
 src/bgem/bspline/bspline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 10e2f53..1decd8a 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -932,7 +932,8 @@ class Z_Surface:
         xyz_box = np.empty( (2, 3) )
         xyz_box[0, 0:2] = np.amin(self.quad, axis=0)
         xyz_box[1, 0:2] = np.amax(self.quad, axis=0)
-        xyz_box[:, 2] = self._z_mat[0] * self.z_surface.aabb()[:, 0] + self._z_mat[1]
+        # negative scale swaps the bounds
+        xyz_box[:, 2] = np.sort(self._z_mat[0] * self.z_surface.aabb()[:, 0] + self._z_mat[1])
         return xyz_box
 
 
-- 
2.43.0


From be30c4365a222081456aee79c43224efcfe077a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:21 +0000
Subject: [PATCH 23/88] fix: transform of Z_Surface with bilinear mapping
 failed

---
 src/bgem/bspline/bspline.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 1decd8a..fad3142 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -734,7 +734,8 @@ class Z_Surface:
         if xy_quad.shape[0] == 3:
             xy_quad = np.concatenate( (xy_quad, v11[None, :]), axis = 0)
 
-        if np.allclose(xy_quad[3], v11):
+        self._linear_map = np.allclose(xy_quad[3], v11)
+        if self._linear_map:
             # linear case
             self.quad = xy_quad
             self._xy_shift = self.quad[1]
@@ -769,10 +770,11 @@ class Z_Surface:
             assert xy_mat.shape == (2, 3)
 
             self._xy_mat = xy_mat
-            self._mat_uv_to_xy = np.dot(xy_mat[0:2,0:2], self._mat_uv_to_xy)
             quad_center = surf_center[0:2]
-            self._xy_shift = xy_mat[0:2, 2] + np.dot(xy_mat[0:2,0:2], (self._xy_shift - quad_center)) + quad_center
-            self._mat_xy_to_uv = la.inv(self._mat_uv_to_xy)
+            if self._linear_map:
+                self._mat_uv_to_xy = np.dot(xy_mat[0:2,0:2], self._mat_uv_to_xy)
+                self._xy_shift = xy_mat[0:2, 2] + np.dot(xy_mat[0:2,0:2], (self._xy_shift - quad_center)) + quad_center
+                self._mat_xy_to_uv = la.inv(self._mat_uv_to_xy)
             # transform quad
             self.quad = np.dot(self.quad - quad_center, xy_mat[0:2,0:2].T) + xy_mat[0:2, 2] + quad_center
 
-- 
2.43.0


From 0c1a953bb4ef3db08730605797f6395a7bb6f270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:50 +0000
Subject: [PATCH 24/88] fix: copy of Z_Surface followed XY transforms of the
 original

---
 src/bgem/bspline/bspline.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index fad3142..7daee38 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -743,15 +743,9 @@ class Z_Surface:
             u_vec = self.quad[2] - self.quad[1]
             self._mat_uv_to_xy = np.column_stack((u_vec, v_vec))
             self._mat_xy_to_uv = la.inv(self._mat_uv_to_xy)
-
-            self.xy_to_uv = self._linear_xy_to_uv
-            self.uv_to_xy = self._linear_uv_to_xy
-
         else:
             # bilinear case
             self.quad = xy_quad
-            self.xy_to_uv = self._bilinear_xy_to_uv
-            self.uv_to_xy = self._bilinear_uv_to_xy
 
 
     def transform(self, xy_mat, z_mat = None ):
@@ -821,13 +815,16 @@ class Z_Surface:
         return copy.copy(self)
 
 
-    """
     def uv_to_xy(self, uv_points):
+        """
+        Converts array of uv points to array of xy points.
+        :param uv_points: numpy array N x [u,v]
+        :return: numpy array N x [x,y]
+        """
+        if self._linear_map:
+            return self._linear_uv_to_xy(uv_points)
+        return self._bilinear_uv_to_xy(uv_points)
 
-    Abstract method. Converts array of uv points to array of xy points.
-    :param uv_points: numpy array N x [u,v]
-    :return: numpy array N x [x,y]
-    """
     def _linear_uv_to_xy(self, uv_points):
         assert uv_points.shape[1] == 2, "Size: {}".format(uv_points.shape)
         return ( np.dot(uv_points, self._mat_uv_to_xy.T) + self._xy_shift)
@@ -841,13 +838,16 @@ class Z_Surface:
             xy_list.append( self.quad.T.dot(weights) )
         return np.array(xy_list)
 
-    """
     def xy_to_uv(self, xy_points):
+        """
+        Converts array of xy points to array of uv points.
+        :param xy_points: numpy array N x [x,y]
+        :return: numpy array N x [u,v]
+        """
+        if self._linear_map:
+            return self._linear_xy_to_uv(xy_points)
+        return self._bilinear_xy_to_uv(xy_points)
 
-    Abstract method. Converts array of xy points to array of uv points.
-    :param xy_points: numpy array N x [x,y]
-    :return: numpy array N x [u,v]
-    """
     def _linear_xy_to_uv(self, xy_points):
         # assert xy_points.shape[0] == 2
         assert xy_points.shape[1] == 2
-- 
2.43.0


From ed3760398b80281beda90ca780327ec8ff36ef01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:50 +0000
Subject: [PATCH 25/88] fix: z transform applied to poles was still reported by
 get_transform

---
 src/bgem/bspline/bspline.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 7daee38..fbf9b1e 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -802,8 +802,7 @@ class Z_Surface:
             self.z_surface = self.z_surface.deep_copy()
             self.z_surface.poles *= self._z_mat[0]
             self.z_surface.poles += self._z_mat[1]
-            self._z_mat = np.array([1.0, 0.0])
-            self._have_z_mat = False
+            self._reset_transform_z()
 
 
     def get_copy(self):
-- 
2.43.0


From 1b61915441c6a9f7a7c4d9eb23ab7c1b370fbe33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:19 +0000
Subject: [PATCH 26/88] fix: z_eval_array of transformed GridSurface did not
 agree with eval_array

---
 src/bgem/bspline/bspline.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index fbf9b1e..2a51b6e 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -1164,7 +1164,8 @@ class GridSurface:
             u_loc = np.array([1 - uv_loc[0], uv_loc[0]])
             v_loc = np.array([1 - uv_loc[1], uv_loc[1]])
             Z_mat = self.grid_uvz[iu: (iu + 2), iv: (iv + 2), 2]
-            result[i] = self.z_surface.z_mat[0]*(u_loc.dot(Z_mat).dot(v_loc)) + self.z_surface.z_mat[1]
+            # same transform as in eval_array, scaling is relative to the center of the surface
+            result[i] = self.z_surface._z_mat[0]*(u_loc.dot(Z_mat).dot(v_loc)) + self.z_surface._z_mat[1]
         return result
 
 
-- 
2.43.0


From 950d0551a7c125250f168ce0985b2c5ed816d1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:35 +0000
Subject: [PATCH 27/88] fix: Z_Surface.eval failed to combine coordinates

---
 src/bgem/bspline/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 2a51b6e..12da0db 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -864,7 +864,7 @@ class Z_Surface:
         :param u, v: Evaluation point.
         :return: D-dimensional numpy array. D - is dimension given by dimension of poles.
         """
-        z = self.z_surface.eval(u, v)
+        z = self.z_surface.eval(u, v)[0]
         z = self._z_mat[0] * z + self._z_mat[1]
         uv_points = np.array([[u, v]])
         x, y = self.uv_to_xy( uv_points )[0]
-- 
2.43.0


From d11be46cdeeed4f140c376f8f82baacba8ac2873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 28/88] fix: surface approximation on single interval (the
 default for few points) failed

---
 src/bgem/bspline/bspline_approx.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index 4843f28..e54551e 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -443,9 +443,11 @@ class SurfaceApprox:
 
         logging.info('Computing A and B svds approximation ...')
         start_time = time.time()
-        bb_norm = scipy.sparse.linalg.svds(bb_mat, k=1, ncv=10, tol=1e-2, which='LM', v0=None,
+        # number of Lanczos vectors must be smaller then size of the matrix (9 for the single interval approximation)
+        ncv = min(10, bb_mat.shape[0] - 1)
+        bb_norm = scipy.sparse.linalg.svds(bb_mat, k=1, ncv=ncv, tol=1e-2, which='LM', v0=None,
                                            maxiter=300, return_singular_vectors=False)
-        a_norm = scipy.sparse.linalg.eigsh(a_mat, k=1, ncv=10, tol=1e-2, which='LM',
+        a_norm = scipy.sparse.linalg.eigsh(a_mat, k=1, ncv=ncv, tol=1e-2, which='LM',
                                           maxiter=300, return_eigenvectors=False)
         c_mat = bb_mat + self.regularization_weight * (bb_norm[0] / a_norm[0]) * a_mat
         end_time = time.time()
-- 
2.43.0


From ecf5594507239aef8dde39a3ba2a11f4af5925f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 29/88] fix: approximation of points with weights failed

---
 src/bgem/bspline/bspline_approx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index e54551e..e67729f 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -431,8 +431,8 @@ class SurfaceApprox:
         g_vec = self._z_quad_points[:]
         if self._weights is not None:
             W = scipy.sparse.diags(self._w_quad_points, 0)
-            wg_vec = np.dot(W, g_vec)
-            wb_mat = np.dot(W, b_mat)
+            wg_vec = W.dot(g_vec)
+            wb_mat = W.dot(b_mat)
         else:
             wg_vec = g_vec
             wb_mat = b_mat
-- 
2.43.0


From 1c7ecdfe664c2207ec982b3bd77bddaf233f6db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 30/88] fix: approximation error ignored points above the
 surface

---
 src/bgem/bspline/bspline_approx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index e67729f..636e26b 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -463,7 +463,7 @@ class SurfaceApprox:
         logging.info('Computing error ...')
         start_time = time.time()
         diff = b_mat.dot(z_vec) - g_vec
-        self.error = max_diff = np.max(diff)
+        self.error = max_diff = np.max(np.abs(diff))
         logging.info("Approximation error (max norm): {}".format(max_diff) )
         end_time = time.time()
         logging.info('Computed in: {} s'.format(end_time - start_time))
-- 
2.43.0


From beb2a772e24edc99e9b048c509663425a01e722d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 31/88] fix: overhang failed for integer points and moved
 non-planar bilinear surface off its corners

---
 src/bgem/bspline/bspline_approx.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index 636e26b..4edebd9 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -47,11 +47,13 @@ def bilinear_surface(vtxs, overhang=0.0):
     :return: ( Surface, vtxs_uv )
     """
     assert len(vtxs) == 4, "n vtx: {}".format(len(vtxs))
-    vtxs = np.array(vtxs)
+    vtxs = np.array(vtxs, dtype=float)
     if overhang > 0.0:
-        dv = np.roll(vtxs, -1, axis=0) - vtxs
-        dv *= overhang
-        vtxs +=  np.roll(dv, 1, axis=0) - dv
+        # extend the edges v0 -> v1, v3 -> v2 and then v0 -> v3, v1 -> v2, so the corners stay on the surface
+        for a, b in ((0, 1), (3, 2), (0, 3), (1, 2)):
+            dv = overhang * (vtxs[b] - vtxs[a])
+            vtxs[a] -= dv
+            vtxs[b] += dv
 
     def mid(*idx):
         return np.mean( vtxs[list(idx)], axis=0)
@@ -78,7 +80,7 @@ def line(vtxs, overhang = 0.0):
     :return: Curve2D
     '''
     assert len(vtxs) == 2
-    vtxs = np.array(vtxs)
+    vtxs = np.array(vtxs, dtype=float)
     if overhang > 0.0:
         dv = overhang*(vtxs[1] - vtxs[0])
         vtxs[0] -= dv
-- 
2.43.0


From e30de46087dbbbbb6cdc9c395e23920feacc6ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 32/88] fix: intersection of surfaces failed completely when
 the iteration hit a tangent point

---
 src/bgem/bspline/isec_curve_surf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bgem/bspline/isec_curve_surf.py b/src/bgem/bspline/isec_curve_surf.py
index cb276d7..5d0ee4c 100644
--- a/src/bgem/bspline/isec_curve_surf.py
+++ b/src/bgem/bspline/isec_curve_surf.py
@@ -84,7 +84,11 @@ class IsecCurveSurf:
                 break
 
             delta_xyz = delta_xyz.flatten()
-            uvt = uvt - la.solve(J, delta_xyz)
+            try:
+                uvt = uvt - la.solve(J, delta_xyz)
+            except la.LinAlgError:
+                # curve tangent to the surface, no unique intersection point
+                break
             uvt = np.maximum(uvt, min_bounds)
             uvt = np.minimum(uvt, max_bounds)
 
-- 
2.43.0


From 9fbbbd3e9a7468d13bf505c28f8e5e255e39f2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:30 +0000
Subject: [PATCH 33/88] fix: Approx.plane changed the given list of points

---
 src/bgem/bspline/brep_writer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index 7deb770..df00e39 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -375,7 +375,6 @@ class Approx:
         :return: ( Surface, vtxs_uv )
         """
         assert len(vtxs) == 3, "n vtx: {}".format(len(vtxs))
-        vtxs.append( (0,0,0) )
         vtxs = np.array(vtxs)
         vv = vtxs[1] + vtxs[2] - vtxs[0]
         vtx4 = [ vtxs[0], vtxs[1], vv, vtxs[2]]
-- 
2.43.0


From 63a4a4832ed143d0d17552b15f51514f5be1f1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:30 +0000
Subject: [PATCH 34/88] fix: model already printed or written, or sharing
 shapes with an other one, was written empty

---
 src/bgem/bspline/brep_writer.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index df00e39..2e7b4be 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -18,6 +18,16 @@ TODO:
 class ParamError(Exception):
     pass
 
+
+def _is_numbered(obj, group):
+    '''
+    True if the object already has its number within the group, i.e. the list of objects of the currently written model.
+    A number from an other (previous) indexing is not valid.
+    '''
+    i = getattr(obj, 'id', 0)
+    return 0 < i <= len(group) and group[i - 1] is obj
+
+
 def check_matrix(mat, shape, values, idx=[]):
     '''
     Check shape and type of scalar, vector or matrix.
@@ -84,7 +94,10 @@ class Location:
         :param groups: dict(locations=[], curves_2d=[], curves_3d=[], surfaces=[], shapes=[])
         :return: None
         """
-        if not hasattr(self, 'id'):
+        if getattr(self, 'id', None) == 0:
+            # identity
+            return
+        if not _is_numbered(self, groups['locations']):
             id=len(groups['locations'])+1
             self.id = id
             groups['locations'].append(self)
@@ -194,7 +207,7 @@ class Curve3D:
 
 
     def _dfs(self, groups):
-        if not hasattr(self, 'id'):
+        if not _is_numbered(self, groups['curves_3d']):
             id = len(groups['curves_3d']) + 1
             self.id = id
             groups['curves_3d'].append(self)
@@ -249,7 +262,7 @@ class Curve2D:
 
 
     def _dfs(self, groups):
-        if not hasattr(self, 'id'):
+        if not _is_numbered(self, groups['curves_2d']):
             id = len(groups['curves_2d']) + 1
             self.id = id
             groups['curves_2d'].append(self)
@@ -331,7 +344,7 @@ class Surface:
 
 
     def _dfs(self, groups):
-        if not hasattr(self, 'id'):
+        if not _is_numbered(self, groups['surfaces']):
             id = len(groups['surfaces']) + 1
             self.id = id
             groups['surfaces'].append(self)
@@ -600,7 +613,7 @@ class Shape:
         :param groups: dict(locations=[], curves_2d=[], curves_3d=[], surfaces=[], shapes=[])
         :return: None
         """
-        if hasattr(self, 'id'):
+        if _is_numbered(self, groups['shapes']):
             return
         for sub_ref in self.childs:
             sub_ref.location._dfs(groups)
-- 
2.43.0


From 9aca9839759538849cc47a51fd2e03f18211c6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:30 +0000
Subject: [PATCH 35/88] fix: location given for the model was not applied to it

---
 src/bgem/bspline/brep_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index 2e7b4be..fd157fc 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -1097,7 +1097,7 @@ def write_model(stream, compound, location):
         #print("# {} id: {} childs: {}\n".format(shape.shpname, shape.id,
         #                                        [ch.id for ch in shape.subshapes()]))
         shape._brep_output(stream, groups)
-    stream.write("\n+1 0")
+    stream.write("\n+1 {}".format(location.id))
     #stream.write("0\n")
 
 
-- 
2.43.0


From be1750b926265827b955288e0307d98bda527a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:30 +0000
Subject: [PATCH 36/88] fix: edge changed vertex orientation in references
 shared with other edges

---
 src/bgem/bspline/brep_writer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index fd157fc..6633565 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -873,9 +873,9 @@ class Edge(Shape):
         assert(len(vertices) == 2)
 
         super().__init__(vertices)
-        # Overwrite vertex orientation
-        self.childs[0].orientation = Orient.Forward
-        self.childs[1].orientation = Orient.Reversed
+        # Overwrite vertex orientation, do not touch the given references, they may be shared by more edges
+        self.childs = [ShapeRef(ref.shape, orient, ref.location)
+                       for ref, orient in zip(self.childs, (Orient.Forward, Orient.Reversed))]
 
     def set_edge_flags(self, same_parameter, same_range, degenerated):
         """
-- 
2.43.0


From 08a8c923ddd3cc719caf0d6021c07f9a2785464c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 37/88] fix: identity within composed location terminated its
 record

---
 src/bgem/bspline/brep_writer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index 6633565..ca730f3 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -136,7 +136,9 @@ class ComposedLocation(Location):
     def _brep_output(self, stream, groups):
         stream.write("2 ")
         for loc, pow in self.location_powers:
-            stream.write("{} {} ".format(loc.id, pow))
+            # identity has no record, its number 0 would terminate the list
+            if loc.id != 0:
+                stream.write("{} {} ".format(loc.id, pow))
         stream.write("0\n")
 
 def check_knots(deg, knots, N):
-- 
2.43.0


From 932e7433cb98cd07a7ce843c4371fff66b7f5ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:18 +0000
Subject: [PATCH 38/88] fix: composed location equal to identity or an other
 location shifted numbers of further locations

---
 src/bgem/bspline/brep_writer.py | 38 ++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index ca730f3..b650d35 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -88,19 +88,35 @@ class Location:
         check_matrix(matrix, [3, 4], (int, float))
         self.matrix=matrix
 
+    def _datums(self):
+        """
+        Location as a composition of elementary transformations.
+        :return: List of pairs (elementary Location, power), no neighbours are same, no power is zero.
+        """
+        if self.matrix is None:
+            return []
+        return [(self, 1)]
+
     def _dfs(self, groups):
         """
         Deep first search that assign numbers to shapes
         :param groups: dict(locations=[], curves_2d=[], curves_3d=[], surfaces=[], shapes=[])
         :return: None
         """
-        if getattr(self, 'id', None) == 0:
+        if _is_numbered(self, groups['locations']):
+            return
+        datums = self._datums()
+        if not datums:
             # identity
+            self.id = 0
             return
-        if not _is_numbered(self, groups['locations']):
-            id=len(groups['locations'])+1
-            self.id = id
-            groups['locations'].append(self)
+        # Readers of BREP do not number a location equal to a previous one.
+        for location in groups['locations']:
+            if location._datums() == datums:
+                self.id = location.id
+                return
+        groups['locations'].append(self)
+        self.id = len(groups['locations'])
 
     def _brep_output(self, stream, groups):
         stream.write("1\n")
@@ -126,6 +142,18 @@ class ComposedLocation(Location):
 
         self.location_powers=location_powers
 
+    def _datums(self):
+        datums = []
+        for location, power in self.location_powers:
+            factor = location._datums()
+            if power < 0:
+                factor = [(loc, -pow) for loc, pow in reversed(factor)]
+            for loc, pow in factor * abs(power):
+                if datums and datums[-1][0] is loc:
+                    pow += datums.pop()[1]
+                if pow != 0:
+                    datums.append((loc, pow))
+        return datums
 
     def _dfs(self, groups):
 
-- 
2.43.0


From 230d942e34f5f0259be5cec76f8819f56eeba2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:32 +0000
Subject: [PATCH 39/88] fix: flags of vertices were overwritten by flags of
 other shapes

---
 src/bgem/bspline/brep_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index b650d35..01ee53f 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -1018,8 +1018,6 @@ class Vertex(Shape):
         """
         check_matrix(point, [3], scalar_types)
 
-        # These flags are produced by OCC for vertices.
-        self.flags = ShapeFlag(0, 1, 0, 1, 1, 0, 1)
         # Coordinates in the 3D space. [X, Y, Z]
         self.point=np.array(point)
         # tolerance of representations.
@@ -1032,6 +1030,8 @@ class Vertex(Shape):
         self.sub_types=[]
 
         super().__init__(childs=[])
+        # These flags are produced by OCC for vertices.
+        self.set_flags((0, 1, 0, 1, 1, 0, 1))
 
     def attach_to_3d_curve(self, t, curve, location=Location()):
         """
-- 
2.43.0


From c9c6344e581c55cdaeaef263f3f4ca3e96b4cbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:32 +0000
Subject: [PATCH 40/88] fix: appending an edge to a wire left its closed flag

---
 src/bgem/bspline/brep_writer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index 01ee53f..1ae1a99 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -744,6 +744,11 @@ class Wire(Shape):
         self.set_flags((0, 1, 0, 1, 0, 0, 0))  # modified, orientable
         self._set_closed()
 
+    def append(self, shape_ref):
+        super().append(shape_ref)
+        if hasattr(self, 'flags'):
+            self._set_closed()
+
     def _set_closed(self):
         '''
         Return true for the even parity of vertices.
-- 
2.43.0


From 92bfb5a92e529cfe7df66979d4a53ec60e68147d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:30 +0000
Subject: [PATCH 41/88] fix: model extended after printing or writing could not
 be printed

---
 src/bgem/bspline/brep_writer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index 1ae1a99..3a0be4a 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -665,8 +665,11 @@ class Shape:
     def _subrecordoutput(self, stream):
         stream.write("\n")
 
+    def _is_indexed(self):
+        return hasattr(self, 'id') and all(shape._is_indexed() for shape in self.subshapes())
+
     def __repr__(self):
-        if not hasattr(self, 'id'):
+        if not self._is_indexed():
             self.index_all()
         if len(self.childs)==0:
             return ""
-- 
2.43.0


From c53b0908f3f14b2280a88eef01285897fd0cd2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 42/88] fix: physical names were read with quotes, written
 without, and names with spaces were lost

---
 src/bgem/gmsh/gmsh_io.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index 4b42ed4..6132fd3 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -121,8 +121,9 @@ class GmshIO:
             elif readmode:
                 columns = line.split()
                 if readmode == 5:
-                    if len(columns) == 3:
-                        self.physical[str(columns[2])] = (int(columns[1]), int(columns[0]))
+                    if len(columns) > 2:
+                        name = line.split(None, 2)[2].strip('"')
+                        self.physical[name] = (int(columns[1]), int(columns[0]))
 
                 if readmode == 4:
                     if len(columns) == 3:
@@ -203,7 +204,7 @@ class GmshIO:
         for name in sorted(self.physical.keys()):
             value = self.physical[name]
             region_id, dim = value
-            print('%d %d %s' % (dim, region_id, name), file=mshfile)
+            print('%d %d "%s"' % (dim, region_id, name), file=mshfile)
         print('$EndPhysicalNames', file=mshfile)
         print('$Nodes\n%d' % len(self.nodes), file=mshfile)
         for node_id in sorted(self.nodes.keys()):
-- 
2.43.0


From bc12accd24939df4544ebe11ad24ff811dd5a7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 43/88] fix: reading of mesh stopped at an empty line, dropped
 elements without tags and failed for format 1.0

---
 src/bgem/gmsh/gmsh_io.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index 6132fd3..92a9f82 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -97,11 +97,14 @@ class GmshIO:
             mshfile = open(self.filename, 'r')
 
         readmode = 0
+        ftype = 0   # format 1.0 has no header
         print('Reading %s' % mshfile.name)
-        line = 'a'
-        while line:
-            line = mshfile.readline()
-            line = line.strip()
+        raw_line = 'a'
+        while raw_line:
+            raw_line = mshfile.readline()
+            line = raw_line.strip()
+            if not line:
+                continue
 
             if line.startswith('$'):
                 if line == '$NOD' or line == '$Nodes':
@@ -148,7 +151,7 @@ class GmshIO:
                     except ValueError as e:
                         print('Node format error: ' + line, e)
                         readmode = 0
-                elif ftype == 0 and (readmode == 2 or readmode == 3) and len(columns) > 5:
+                elif ftype == 0 and (readmode == 2 or readmode == 3) and len(columns) > 3:
                     # Version 1.0 or 2.0 Elements
                     try:
                         columns = [int(col) for col in columns]
-- 
2.43.0


From da810d45f899f46b66252937a7b5cfb20e90476b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 44/88] fix: element data were read under strings instead of
 element ids

---
 src/bgem/gmsh/gmsh_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index 92a9f82..4d42231 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -80,7 +80,7 @@ class GmshIO:
             if line.startswith('$'):
                 raise Exception("Insufficient number of entries in the $ElementData block: {} time={}".format(field, time))
             columns = line.split()
-            iel = columns[0]
+            iel = int(columns[0])
             values = [float(v) for v in columns[1:]]
             assert len(values) == n_comp
             elem_data[iel] = values
-- 
2.43.0


From 48759745536794bf417a7e3d260bff2945f01801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 45/88] fix: scalar fields given as vectors and fields for the
 current mesh file could not be written

---
 src/bgem/gmsh/gmsh_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index 4d42231..91352b4 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -268,7 +268,7 @@ class GmshIO:
         """
         n_els = values.shape[0]
         n_comp = np.atleast_1d(values[0]).shape[0]
-        np.reshape(values, (n_els, n_comp))
+        values = np.reshape(values, (n_els, n_comp))
         header_dict = dict(
             field=str(name),
             time=0,
@@ -303,7 +303,7 @@ class GmshIO:
         :param fields: {'field_name' : values_array, ..}
         """
         if not msh_file:
-            msh_file = open(self.filename, 'w')
+            msh_file = self.filename
         with open(msh_file, "w") as fout:
             fout.write('$MeshFormat\n2.2 0 8\n$EndMeshFormat\n')
             for name, values in fields.items():
-- 
2.43.0


From fe1d3ba5994c0b3d8429fb0195ba2281bc583d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:13 +0000
Subject: [PATCH 46/88] fix: binary mesh files could be neither written nor
 read

---
 src/bgem/gmsh/gmsh_io.py | 57 ++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/src/bgem/gmsh/gmsh_io.py b/src/bgem/gmsh/gmsh_io.py
index 91352b4..e96e228 100644
--- a/src/bgem/gmsh/gmsh_io.py
+++ b/src/bgem/gmsh/gmsh_io.py
@@ -18,6 +18,12 @@ import enum
 # }
 #
 
+def _read_line(mshfile):
+    """Next line of a text or binary stream, as a string."""
+    line = mshfile.readline()
+    return line.decode() if isinstance(line, bytes) else line
+
+
 class GmshIO:
     """This is a class for storing nodes and elements. Based on Gmsh.py
 
@@ -47,25 +53,25 @@ class GmshIO:
 
     def read_element_data_head(self, mshfile):
 
-        columns = mshfile.readline().strip().split()
+        columns = _read_line(mshfile).strip().split()
         n_str_tags = int(columns[0])
         assert (n_str_tags == 1)
-        field = mshfile.readline().strip().strip('"')
+        field = _read_line(mshfile).strip().strip('"')
 
-        columns = mshfile.readline().strip().split()
+        columns = _read_line(mshfile).strip().split()
         n_real_tags = int(columns[0])
         assert (n_real_tags == 1)
-        columns = mshfile.readline().strip().split()
+        columns = _read_line(mshfile).strip().split()
         time = float(columns[0])
 
-        columns = mshfile.readline().strip().split()
+        columns = _read_line(mshfile).strip().split()
         n_int_tags = int(columns[0])
         assert (n_int_tags == 3)
-        columns = mshfile.readline().strip().split()
+        columns = _read_line(mshfile).strip().split()
         t_idx = int(columns[0])
-        columns = mshfile.readline().strip().split()
+        columns = _read_line(mshfile).strip().split()
         n_comp = int(columns[0])
-        columns = mshfile.readline().strip().split()
+        columns = _read_line(mshfile).strip().split()
         n_elem = int(columns[0])
         return field, time, t_idx, n_comp, n_elem
 
@@ -76,7 +82,7 @@ class GmshIO:
         elem_data = {}
         field_time_dict[t_idx] = (time, elem_data)
         for i in range(n_ele):
-            line = mshfile.readline()
+            line = _read_line(mshfile)
             if line.startswith('$'):
                 raise Exception("Insufficient number of entries in the $ElementData block: {} time={}".format(field, time))
             columns = line.split()
@@ -94,14 +100,14 @@ class GmshIO:
         """
 
         if not mshfile:
-            mshfile = open(self.filename, 'r')
+            mshfile = open(self.filename, 'rb')
 
         readmode = 0
         ftype = 0   # format 1.0 has no header
         print('Reading %s' % mshfile.name)
         raw_line = 'a'
         while raw_line:
-            raw_line = mshfile.readline()
+            raw_line = _read_line(mshfile)
             line = raw_line.strip()
             if not line:
                 continue
@@ -135,7 +141,7 @@ class GmshIO:
                                              int(columns[2]))
                         print(('ASCII', 'Binary')[ftype] + ' format')
                     else:
-                        endian = struct.unpack('i', columns[0])
+                        endian = struct.unpack('i', columns[0].encode())
                 if readmode == 1:
                     # Version 1.0 or 2.0 Nodes
                     try:
@@ -172,21 +178,21 @@ class GmshIO:
                         self.elements[id] = (type, tags, nodes)
                 elif readmode == 3 and ftype == 1:
                     # el_type : num of nodes per element
-                    tdict = {1: 2, 2: 3, 3: 4, 4: 4, 5: 5, 6: 6, 7: 5, 8: 3, 9: 6, 10: 9, 11: 10, 15: 1}
+                    tdict = {1: 2, 2: 3, 3: 4, 4: 4, 5: 8, 6: 6, 7: 5, 8: 3, 9: 6, 10: 9, 11: 10, 15: 1}
                     try:
                         neles = int(columns[0])
                         k = 0
                         while k < neles:
                             etype, ntype, ntags = struct.unpack('=3i',
                                                                 mshfile.read(3 * 4))
-                            k += 1
+                            k += ntype
                             for j in range(ntype):
                                 mysize = 1 + ntags + tdict[etype]
                                 data = struct.unpack('=%di' % mysize,
                                                      mshfile.read(4 * mysize))
                                 self.elements[data[0]] = (etype,
-                                                          data[1:1 + ntags],
-                                                          data[1 + ntags:])
+                                                          list(data[1:1 + ntags]),
+                                                          list(data[1 + ntags:]))
                     except:
                         raise
                     mshfile.read(1)
@@ -230,17 +236,22 @@ class GmshIO:
         if not filename:
             filename = self.filename
 
-        mshfile = open(filename, 'wr')
+        mshfile = open(filename, 'wb')
 
-        mshfile.write("$MeshFormat\n2.2 1 8\n")
+        mshfile.write(b"$MeshFormat\n2.2 1 8\n")
         mshfile.write(struct.pack('@i', 1))
-        mshfile.write("\n$EndMeshFormat\n")
-        mshfile.write("$Nodes\n%d\n" % (len(self.nodes)))
+        mshfile.write(b"\n$EndMeshFormat\n")
+        mshfile.write(b"$PhysicalNames\n%d\n" % len(self.physical))
+        for name in sorted(self.physical.keys()):
+            region_id, dim = self.physical[name]
+            mshfile.write(('%d %d "%s"\n' % (dim, region_id, name)).encode())
+        mshfile.write(b"$EndPhysicalNames\n")
+        mshfile.write(b"$Nodes\n%d\n" % (len(self.nodes)))
         for node_id, coord in self.nodes.items():
             mshfile.write(struct.pack('@i', node_id))
             mshfile.write(struct.pack('@3d', *coord))
-        mshfile.write("\n$EndNodes\n")
-        mshfile.write("$Elements\n%d\n" % (len(self.elements)))
+        mshfile.write(b"\n$EndNodes\n")
+        mshfile.write(b"$Elements\n%d\n" % (len(self.elements)))
         for ele_id, elem in self.elements.items():
             (ele_type, tags, nodes) = elem
             mshfile.write(struct.pack('@i', ele_type))
@@ -251,7 +262,7 @@ class GmshIO:
                 mshfile.write(struct.pack('@i', c))
             for c in nodes:
                 mshfile.write(struct.pack('@i', c))
-        mshfile.write("\n$EndElements\n")
+        mshfile.write(b"\n$EndElements\n")
 
         mshfile.close()
 
-- 
2.43.0


From 5c90663559d444500cae53c73a94fa3334f24764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:44 +0000
Subject: [PATCH 47/88] fix: tolerance of close nodes was computed from node
 ids instead of coordinates

---
 src/bgem/gmsh/heal_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index 67911e1..5ccfb72 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -229,7 +229,7 @@ class HealMesh:
         self.modified_elements = set()
         aabb_min = np.full(3, +np.inf)
         aabb_max = np.full(3, -np.inf)
-        for n in self.mesh.nodes:
+        for n in self.mesh.nodes.values():
             aabb_max = np.maximum(aabb_max, n)
             aabb_min = np.minimum(aabb_min, n)
         diam = np.max(aabb_max - aabb_min)
-- 
2.43.0


From 0aec3bd0a5aded99f3613fd443cd07f8d71f6adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:44 +0000
Subject: [PATCH 48/88] fix: gamma quality of flat tetrahedron with vertices on
 a circle failed

---
 src/bgem/gmsh/heal_mesh.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index 5ccfb72..d1183c6 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -101,9 +101,12 @@ class Tetrahedron(ShapeBase):
             # circum radius
             a,b,c,A,B,C = self.edge_lens
             x_area = (a*A + b*B + c*C)*(a*A + b*B - c*C)*(a*A - b*B + c*C)*(-a*A + b*B + c*C)
-            assert x_area > 0, x_area
-            R = np.sqrt(x_area) / 24 / max(1e-300, V)
-            self._gamma = 3 * r/max(1e-300, R)
+            if x_area > 0:
+                R = np.sqrt(x_area) / 24 / max(1e-300, V)
+                self._gamma = 3 * r/max(1e-300, R)
+            else:
+                # vertices (nearly) on a plane circle
+                self._gamma = 0.0
         return self._gamma
 
 
-- 
2.43.0


From 02ce76d2fbe73361c2e905c2f2566ec8088a2f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:44 +0000
Subject: [PATCH 49/88] fix: smooth gradient quality of tetrahedron paired
 edges with wrong faces

---
 src/bgem/gmsh/heal_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index d1183c6..6e7266a 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -86,7 +86,7 @@ class Tetrahedron(ShapeBase):
     def smooth_grad_error_indicator(self):
         faces = self.face_areas
         e_lens = self.edge_lens
-        e_faces = [[0, 1], [0, 2], [1, 2], [0, 3], [1, 3], [2, 3]] # faces joining the edge
+        e_faces = [[0, 1], [0, 2], [1, 2], [2, 3], [1, 3], [0, 3]] # faces joining the edge
         sum_pairs = max(1e-300, np.sum([faces[i] * faces[j] * elen ** 2 for (i,j),elen in zip(e_faces, e_lens)]))
         regular = (2.0 * np.sqrt(2.0 / 3.0) / 9.0)
         quality = np.abs(self.measure) * (np.sum(faces) / sum_pairs) ** (3.0/4.0) / regular
-- 
2.43.0


From de8bd3de52071ec36045af4cf0e727f1cf36e321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:44 +0000
Subject: [PATCH 50/88] fix: flat indicator of tetrahedron was doubled

---
 src/bgem/gmsh/heal_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index 6e7266a..c41785f 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -42,7 +42,7 @@ class ShapeBase:
         dim = self.dim
         max_edge = max(1e-300, np.max(self.edge_lens))
         if dim == 3:
-            alt = 6 * np.abs(self.measure) / max(1e-300, np.max(self.face_areas))
+            alt = 3 * np.abs(self.measure) / max(1e-300, np.max(self.face_areas))
         else:
             alt = 2 * np.abs(self.measure) / max_edge
 
-- 
2.43.0


From 0ba4589e6fe394d50e5b4d07814be094b5b20e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:44 +0000
Subject: [PATCH 51/88] fix: elements modified by healing of the last element
 were not checked

---
 src/bgem/gmsh/heal_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index c41785f..dedc094 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -450,7 +450,7 @@ class HealMesh:
         orig_n_el = self.max_ele_id
         el_to_check = collections.deque(self.mesh.elements.keys())
         modified = []
-        while el_to_check:
+        while el_to_check or modified:
             el_to_check.extend(modified)
             modified = []
             # prevent infinite loop
-- 
2.43.0


From 8a43b430d9f63cfb7098008beba951ff8a617289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:45 +0000
Subject: [PATCH 52/88] fix: healing of flat quad tetrahedron left hanging
 nodes on its crossing edges

---
 src/bgem/gmsh/heal_mesh.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index dedc094..ca0f026 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -761,19 +761,10 @@ class HealMesh:
         # add intersection node
         new_node_id = self.add_node(isec_point)
 
-        # split attached elements
-        node_perm = pos_edge + neg_edge # canonical nodes to real nodes
-        canonical_faces = [[0, 1, 2], [0, 1, 3], [2, 3, 0], [2, 3, 1]] # first two nodes
-        for c_face in canonical_faces:
-            face = [node_perm[vtx] for vtx in c_face]
-            # split elements connected to the face
-            # intersection splits the first edge of the face
-            edge_n0_id = ele.node_ids[face[0]]
-            edge_n1_id = ele.node_ids[face[1]]
-            #print("edge nids: ", edge_n0_id, edge_n1_id)
-
-            # active elements connected to the face
-            for el_id in self.common_elements([ele.node_ids[loc_node] for loc_node in face], max=2):
+        # split all elements connected to the crossing edges
+        for edge in (pos_edge, neg_edge):
+            edge_n0_id, edge_n1_id = ele.node_ids[edge]
+            for el_id in self.common_elements([edge_n0_id, edge_n1_id]):
                 el_type, el_tags, el_node_ids = self.mesh.elements[el_id]
                 if edge_n0_id not in el_node_ids or edge_n1_id not in el_node_ids:
                     print("  Warn: ", "Missing edge", "el_id: ", el_id, el_node_ids)
-- 
2.43.0


From 93c833bb17c925019ec4e80d2a7d545e4fabca69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:11 +0000
Subject: [PATCH 53/88] fix: elements of a triangle which is not flat enough to
 split were removed without healing

---
 src/bgem/gmsh/heal_mesh.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index ca0f026..af2b4bb 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -551,11 +551,6 @@ class HealMesh:
 
 
         i_max_edge = np.argmax(tria_shape.edge_lens)
-
-        # remove elements connected to the degenerate triangle
-        for el_id in self.common_elements(tria_node_ids):
-            self.remove_element(el_id)
-
         # project node to longest edge
         max_edge = tria_shape.edges[i_max_edge]
         max_edge_u = tria_shape.edge_vectors[i_max_edge]
@@ -571,6 +566,10 @@ class HealMesh:
             return []
         print("eid: {} heal small triangle ({}), nodes: {} elens: {}".format(ele.eid, ele.shape.gmsh_gamma(), ele.node_ids, tria_shape.edge_lens))
 
+        # remove elements connected to the degenerate triangle
+        for el_id in self.common_elements(tria_node_ids):
+            self.remove_element(el_id)
+
         projected = tria_shape.nodes[max_edge[0]] + tt * max_edge_u
         nid_proj = tria_node_ids[i_max_edge]
 
-- 
2.43.0


From 2b5bb1fe67de02797e7c318ff8deba8ead79299e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:54 +0000
Subject: [PATCH 54/88] fix: healing of removed element continued when it had
 no neighbours

---
 src/bgem/gmsh/heal_mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index af2b4bb..9cfac85 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -460,9 +460,9 @@ class HealMesh:
             if eid in self.mesh.elements:
                 ele = self._make_element(eid)
                 modified = self._check_dupl_nodes(ele)
-                if modified: continue
+                if modified or eid not in self.mesh.elements: continue
                 modified = self._check_degen_nodes(ele)
-                if modified: continue
+                if modified or eid not in self.mesh.elements: continue
                 modified = self._check_duplicate_element(ele)
                 if modified: continue
 
-- 
2.43.0


From 121e7d60427572b303c7ff66be13d8c4babd9a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:54 +0000
Subject: [PATCH 55/88] fix: gamma quality of triangle with coincident vertices
 was NaN

---
 src/bgem/gmsh/heal_mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index 9cfac85..d62f386 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -163,6 +163,10 @@ class Triangle(ShapeBase):
             a,b,c = self.edge_lens
             # inradius
             s = (a + b + c)/2
+            if min(a, b, c) == 0:
+                # coincident vertices
+                self._gamma = 0.0
+                return self._gamma
             #r = np.sqrt(s*(s-a)*(s-b)*(s-c)) / s
             #R = a*b*c / 4 / r / s
             #gamma =  2 * r / R
-- 
2.43.0


From c8a52ef7abf5939b51871b2a702fd3a2716efccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:06 +0000
Subject: [PATCH 56/88] fix: healing failed for flat tetrahedra with edges
 crossing close to a vertex

---
 src/bgem/gmsh/heal_mesh.py | 30 +++---------------------------
 1 file changed, 3 insertions(+), 27 deletions(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index d62f386..af9f00c 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -735,18 +735,8 @@ class HealMesh:
         isec_point = pos_0 + pos_t * pos_u
 
         print("  isec: ", (pos_t, neg_t))
-        skew_edges = [(pos_t, pos_edge), (neg_t, neg_edge)]
-        for i, (t, edge) in enumerate(skew_edges):
-            edge_len = np.linalg.norm(flat_nodes[edge[1]] - flat_nodes[edge[0]])
-            other_edge = skew_edges[1-i][1]
-
-            #tria_nodes = np.stack((flat_nodes[edge[0]], flat_nodes[other_edge[0]], flat_nodes[other_edge[1]]), axis=0)
-            #tria_flatness = Triangle(tria_nodes).small_edge_ratio()
-            assert np.abs(t-0) > 0.05, "  flat tetra, degen side, 0 == t: {}".format(t)
-            #tria_nodes = np.stack((flat_nodes[edge[1]], flat_nodes[other_edge[0]], flat_nodes[other_edge[1]]), axis=0)
-            #tria_flatness = Triangle(tria_nodes).small_edge_ratio()
-            assert np.abs(t-1) > 0.05, "  flat tetra, degen side, 1 == t: {}".format(t)
 
+        # The crossing may be close to a vertex, small elements are healed subsequently.
         assert 0 < pos_t < 1 ,(pos_t, neg_t)
         assert 0 < neg_t < 1 ,(pos_t, neg_t)
 
@@ -797,23 +787,9 @@ class HealMesh:
         :param outer_face:
         :return:
         """
-        # try to project opposite node to edges
         i_inner_node = 3 - outer_face
-        i_outer_nodes = Tetrahedron.vtxs_faces[outer_face]
-        inner_node = flat_nodes[i_inner_node]
-        outer_nodes = flat_nodes[np.arange(4) != i_inner_node]
-        projections = []
-        for i, edg in enumerate(Triangle.edges):
-            e_nodes = outer_nodes[edg, :]
-            e_vec = (e_nodes[1] - e_nodes[0])
-            t_proj = (e_vec @ (inner_node - e_nodes[0])) / (e_vec @ e_vec)
-            x_proj = e_vec * t_proj + e_nodes[0]
-            rel_dist = np.linalg.norm(inner_node - x_proj) / np.linalg.norm(e_vec)
-            projections.append((rel_dist, i, t_proj, x_proj))
-        rel_dist, i, t, x = min(projections)
-        assert rel_dist > 0.05, "  flat tria degen side, rel dist: {}".format(rel_dist)
-
-        # nondegenerate triangle case, split elements connected to the outer face
+
+        # split elements connected to the outer face
         print("  flat tria case")
 
         # move nodes
-- 
2.43.0


From d45c9e43d2d696fe80d28159e063d35f8990b3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 57/88] fix: GeometryOCC.rectangle changed the list of its
 sides

---
 src/bgem/gmsh/gmsh.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index e0df451..07f0bb7 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -259,8 +259,7 @@ class GeometryOCC:
         return self.object(dim, res)
 
     def rectangle(self, xy_sides=[1, 1], center=[0, 0, 0]):
-        xy_sides.append(0)
-        corner = np.array(center) - np.array(xy_sides) / 2
+        corner = np.array(center) - np.array([*xy_sides[0:2], 0]) / 2
         rec_tag = self.model.addRectangle(*corner.tolist(), *xy_sides[0:2])
         self._need_synchronize = True
         return self.object(2, rec_tag)
-- 
2.43.0


From 349a9c4a8e49ee3af8d4c4ffc9b7dfe82f66a0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 58/88] fix: make_polygon did not request synchronization of
 the new surface

---
 src/bgem/gmsh/gmsh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 07f0bb7..70bee03 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -295,6 +295,7 @@ class GeometryOCC:
         lines = [self.model.addLine(a, b) for a,b in zip(vertices[0:-1], vertices[1:])]
         loop = self.model.addCurveLoop(lines, tag=-1)
         surface = self.model.addPlaneSurface([loop], tag=-1)
+        self._need_synchronize = True
         return self.object(2, surface)
 
 
-- 
2.43.0


From 2cd7138cabf1046792a72ffa587a36ce31a7485d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 59/88] fix: make_polygon failed for an integer scalar mesh
 step

---
 src/bgem/gmsh/gmsh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 70bee03..1f4dcdd 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -288,7 +288,7 @@ class GeometryOCC:
         """
         if mesh_step is None:
             mesh_step = 0.0
-        if type(mesh_step) is float:
+        if np.ndim(mesh_step) == 0:
             mesh_step = np.full(len(points), mesh_step)
         vertices = [self.model.addPoint(*p, step, tag=-1) for p, step in zip(points, mesh_step)]
         vertices.append(vertices[0])
-- 
2.43.0


From fb9e71608d80e587d5fc9b22b2133361a036e830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 60/88] fix: make_rectangle connected its corners in a self
 crossing order

---
 src/bgem/gmsh/gmsh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 1f4dcdd..2537268 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -327,8 +327,8 @@ class GeometryOCC:
 
     def make_rectangle(self, scale) -> int:
         # Vertices of the rectangle
-        shifts = np.array([(1, 1, 0), (1, -1, 0), (-1, 1, 0), (-1, -1, 0)])
-        corners = shifts[:, :] * scale[None, :]
+        shifts = np.array([(1, 1, 0), (1, -1, 0), (-1, -1, 0), (-1, 1, 0)])
+        corners = shifts[:, :] * np.array(scale)[None, :]
         point_tags = [self.model.addPoint(*corner) for corner in corners]
         lines = [self.model.addLine(point_tags[i - 1], point_tags[i]) for i in range(4)]
         cl = self.model.addCurveLoop(lines)
-- 
2.43.0


From 997a3575e127e986869d8ea98256afa0bfe7639b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 61/88] fix: gmsh failures were never reported as
 BoolOperationError or GetBoundaryError

---
 src/bgem/gmsh/gmsh.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 2537268..d70d124 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -365,7 +365,7 @@ class GeometryOCC:
 
         try:
             new_tags, tags_map = self.model.fragment(all_dimtags, [], removeObject=True, removeTool=True)
-        except ValueError as err:
+        except Exception as err:
             message = "\nall dimtags: {}, ...".format(str(all_dimtags[:20]))
             raise BoolOperationError(message) from err
 
@@ -570,7 +570,7 @@ class ObjectSet:
         self.factory.synchronize()
         try:
             dimtags = gmsh.model.getBoundary(self.dim_tags, combined=combined, oriented=False)
-        except ValueError as err :
+        except Exception as err :
             message = "\nobj dimtags: {}".format(str(self.dim_tags[:10]))
             raise GetBoundaryError(message) from err
         regions = [Region.default_region[dim] for dim, tag in dimtags]
@@ -652,7 +652,7 @@ class ObjectSet:
         self.factory.synchronize()
         try:
             dimtags = gmsh.model.getBoundary(self.dim_tags, combined=False, oriented=False, recursive=True)
-        except ValueError as err :
+        except Exception as err :
             message = "\nobj dimtags: {} ...".format(str(self.dim_tags[:10]))
             raise GetBoundaryError(message) from err
         nodes = [(dim, tag) for dim, tag in dimtags if dim == 0]
@@ -721,7 +721,7 @@ class ObjectSet:
         tool_objects = self.factory.group(*tool_objects).copy()
         try:
             new_tags, old_tags_map = operation(self.dim_tags, tool_objects.dim_tags, removeObject=True, removeTool=True)
-        except ValueError as err :
+        except Exception as err :
             message = "\nobj dimtags: {}\ntool dimtags: {}".format(str(self.dim_tags[:10]), str(tool_objects.dim_tags[:10]))
             raise BoolOperationError(message) from err
 
-- 
2.43.0


From a10bc4941de486344a9b05aa4175d0bbe675b86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 62/88] fix: keep_only left the boundaries of removed entities
 and was not applied before meshing

---
 src/bgem/gmsh/gmsh.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index d70d124..5e70d66 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -465,10 +465,9 @@ class GeometryOCC:
             group_dimtags = []
         all_dimtags = set(gmsh.model.getEntities())
         remove_dimtags = all_dimtags.difference(set(group_dimtags))
-        try:
-            self.model.remove(list(remove_dimtags), recursive=False)
-        except ValueError:
-            pass
+        # An entity can be removed only after all entities it bounds.
+        self.model.remove(sorted(remove_dimtags, reverse=True), recursive=False)
+        self._need_synchronize = True
 
     def all_entities(self):
         self.synchronize()
-- 
2.43.0


From 354051929e5f5e63a9f0e73912c3447c9143eb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 63/88] fix: write_mesh without a file name wrote the unknown
 extension 'auto'

---
 src/bgem/gmsh/gmsh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 5e70d66..384c9a4 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -448,7 +448,7 @@ class GeometryOCC:
         """
         if filename is None:
             gmsh.option.setNumber('Mesh.Format', format)
-            extension = format.name
+            extension = MeshFormat.msh.name if format == MeshFormat.auto else format.name
             filename = "{}.{}".format(self.model_name, extension)
         gmsh.write(filename)
 
-- 
2.43.0


From d5c428867ca7e14e546002508c3c214979b7fcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 64/88] fix: guard of the single GeometryOCC instance had no
 effect

---
 src/bgem/gmsh/gmsh.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 384c9a4..fa7197b 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -204,7 +204,8 @@ class GeometryOCC:
         if self._have_instance:
             raise Exception("Only single instance of GMSHFactory is allowed.")
         else:
-            self._have_instance = False
+            GeometryOCC._have_instance = True
+            self._own_gmsh = True
 
         self.model_name = model_name
         gmsh.initialize()
@@ -477,7 +478,9 @@ class GeometryOCC:
         gmsh.fltk.run()
 
     def __del__(self):
-        gmsh.finalize()
+        if self.__dict__.get('_own_gmsh', False):
+            gmsh.finalize()
+            GeometryOCC._have_instance = False
 
 
 
-- 
2.43.0


From 83e2c0893cf67180f86309540327cac7084d2c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 65/88] fix: select_by_intersect left the intersection shapes
 in the model

---
 src/bgem/gmsh/gmsh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index fa7197b..7c91fca 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -669,6 +669,9 @@ class ObjectSet:
         sc = self.copy()
         tool = self.factory.group(*tool_objects).copy()
         objs, map = self.factory.model.intersect(sc.dim_tags, tool.dim_tags)
+        factory = self.factory
+        factory.model.remove(list(set(objs)), recursive=True)
+        factory._need_synchronize = True
         tool.invalidate()
         sc.invalidate()
 
-- 
2.43.0


From 714a802c3738c4d9c4e0f8a9ed5302fe44a7862c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 66/88] fix: unique region names could collide with other
 region names

---
 src/bgem/gmsh/gmsh.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 7c91fca..b031ced 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -400,12 +400,13 @@ class GeometryOCC:
             reg_names[reg.name].add(reg.id)
 
         # make used region names unique
-        for id_set in reg_names.values():
+        used_names = set(reg_names)
+        for name, id_set in reg_names.items():
             if len(id_set) > 1:
-                for i, id in enumerate(sorted(id_set)
-
-                                       ):
+                free_idx = (i for i in itertools.count() if "{}_{}".format(name, i) not in used_names)
+                for i, id in zip(free_idx, sorted(id_set)):
                     reg_to_tags[id][0].set_unique_name(i)
+                    used_names.add(reg_to_tags[id][0].name)
 
         # set physical groups
         for reg, tags in reg_to_tags.values():
-- 
2.43.0


From 99f87f5f38767f1173b9079d13e238f10ad60dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 67/88] fix: threshold field ignored its upper bound

---
 src/bgem/gmsh/field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bgem/gmsh/field.py b/src/bgem/gmsh/field.py
index 8b17524..dc50e62 100644
--- a/src/bgem/gmsh/field.py
+++ b/src/bgem/gmsh/field.py
@@ -45,7 +45,7 @@ def distance_edges(curves, nodes_per_edge=8, coordinate_fields=None) -> Field:
 def threshold(field, lower_bound, upper_bound=None, sigmoid=False) -> Field:
     """
     field_min, threshold_min = lower_bound
-    field_max, threshold_max = lower_bound
+    field_max, threshold_max = upper_bound
 
     threshold = threshold_min IF field <= field_min
     threshold = threshold_max IF field >= field_max
@@ -61,7 +61,7 @@ def threshold(field, lower_bound, upper_bound=None, sigmoid=False) -> Field:
     gmsh_field.setNumber(id, "DistMin", field_min)
     gmsh_field.setNumber(id, "LcMin", threshold_min)
     if upper_bound:
-        field_max, threshold_max = lower_bound
+        field_max, threshold_max = upper_bound
         gmsh_field.setNumber(id, "DistMax", field_max)
         gmsh_field.setNumber(id, "LcMax", threshold_max)
     else:
-- 
2.43.0


From cbad81166a92151079ad616a877fb867829ab18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 68/88] fix: restrict field used option names unknown to gmsh

---
 src/bgem/gmsh/field.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/bgem/gmsh/field.py b/src/bgem/gmsh/field.py
index dc50e62..c3d8529 100644
--- a/src/bgem/gmsh/field.py
+++ b/src/bgem/gmsh/field.py
@@ -137,9 +137,10 @@ def restrict(field:Field, *object_sets, add_boundary=False):
         group = factory.group(group, b_group)
     points, edges, faces, volumes = group.split_by_dimension()
     id = gmsh_field.add('Restrict')
-    gmsh_field.setNumber(id, "IField", field)
-    gmsh_field.setNumbers(id, "VerticesList", points.tags)
-    gmsh_field.setNumbers(id, "EdgesList", edges.tags)
-    gmsh_field.setNumbers(id, "FacesList", faces.tags)
-    gmsh_field.setNumbers(id, "RegionsList", volumes.tags)
-    return id
\ No newline at end of file
+    gmsh_field.setNumber(id, "InField", field)
+    gmsh_field.setNumber(id, "IncludeBoundary", False)
+    gmsh_field.setNumbers(id, "PointsList", points.tags)
+    gmsh_field.setNumbers(id, "CurvesList", edges.tags)
+    gmsh_field.setNumbers(id, "SurfacesList", faces.tags)
+    gmsh_field.setNumbers(id, "VolumesList", volumes.tags)
+    return id
-- 
2.43.0


From 86380af4b48db3a24adccb1b84c0bd05ecd24ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:49 +0000
Subject: [PATCH 69/88] fix: copy of an object set of mixed dimension lost the
 lower dimension entities

---
 src/bgem/gmsh/gmsh.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index b031ced..a3d85ea 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -550,7 +550,11 @@ class ObjectSet:
         return self
 
     def copy(self) -> 'ObjectSet':
-        copy_tags = self.factory.model.copy(self.dim_tags)
+        # gmsh copies only the entities of the highest dimension in a single call
+        copies = {}
+        for dim in {dim for dim, tag in self.dim_tags}:
+            copies[dim] = iter(self.factory.model.copy([dt for dt in self.dim_tags if dt[0] == dim]))
+        copy_tags = [next(copies[dim]) for dim, tag in self.dim_tags]
         self.factory._need_synchronize = True
         return ObjectSet(self.factory, copy_tags, self.regions)
 
-- 
2.43.0


From 46dcd6302949df02b48fd6383784ba7df35041b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 70/88] fix: fragment of a single entity failed

---
 src/bgem/gmsh/gmsh.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index a3d85ea..57b180c 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -365,7 +365,11 @@ class GeometryOCC:
         all_dimtags = list(itertools.chain(*[o.dim_tags for o in object_sets]))
 
         try:
-            new_tags, tags_map = self.model.fragment(all_dimtags, [], removeObject=True, removeTool=True)
+            if len(all_dimtags) > 1:
+                new_tags, tags_map = self.model.fragment(all_dimtags, [], removeObject=True, removeTool=True)
+            else:
+                # gmsh returns no map for a single entity
+                tags_map = [[dim_tag] for dim_tag in all_dimtags]
         except Exception as err:
             message = "\nall dimtags: {}, ...".format(str(all_dimtags[:20]))
             raise BoolOperationError(message) from err
-- 
2.43.0


From 75d3d13a0d14393299c0834e738c775f87679877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:40 +0000
Subject: [PATCH 71/88] fix: restore CRLF line endings of undo.py changed by an
 earlier repair

---
 src/bgem/undo.py | 668 +++++++++++++++++++++++------------------------
 1 file changed, 334 insertions(+), 334 deletions(-)

diff --git a/src/bgem/undo.py b/src/bgem/undo.py
index bff6c4d..68af01c 100644
--- a/src/bgem/undo.py
+++ b/src/bgem/undo.py
@@ -1,334 +1,334 @@
-#!/usr/bin/env python3
-# -*- coding: utf-8 -*-
-#
-# Copyright (c) 2011 David Townshend
-#
-# This program is free software; you can redistribute it and/or modify it
-# under the terms of the GNU General Public License as published by the
-# Free Software Foundation; either version 2 of the License, or (at your
-# option) any later version.
-#
-# This program is distributed in the hope that it will be useful, but
-# WITHOUT ANY WARRANTY; without even the implied warranty of MERCHANTABILITY
-# or FITNESS FOR A PARTICULAR PURPOSE.  See the GNU General Public License
-# for more details.
-#
-# You should have received a copy of the GNU General Public License along
-# with this program; if not, write to the Free Software Foundation, Inc.,
-# 675 Mass Ave, Cambridge, MA 02139, USA.
-
-__version__ = '0.5.1'
-__author__ = 'David Townshend'
-
-__all__ = ['undoable', 'group', 'Stack', 'stack', 'setstack']
-
-import contextlib
-
-from collections import deque
-
-class _Action:
-    ''' This represents an action which can be done and undone.
-    
-    It is the result of a call on an undoable function and has
-    three methods: ``do()``, ``undo()`` and ``text()``.  The first value
-    returned by the internal call in ``do()`` is the value which will 
-    subsequently be returned by ``text``.  Any remaining values are 
-    returned by ``do()``.
-    '''
-    def __init__(self, generator, args, kwargs):
-        self._generator = generator
-        self.args = args
-        self.kwargs = kwargs
-        self._text = ''
-
-    def do(self):
-        'Do or redo the action'
-        self._runner = self._generator(*self.args, **self.kwargs)
-        rets = next(self._runner)
-        if isinstance(rets, tuple):
-            self._text = rets[0]
-            return rets[1:]
-        elif rets is None:
-            self._text = ''
-            return None
-        else:
-            self._text = rets
-            return None
-
-    def undo(self):
-        'Undo the action'
-        try:
-            next(self._runner)
-        except StopIteration:
-            pass
-        # Delete it so that its not accidentally called again
-        del self._runner
-
-    def text(self):
-        'Return the descriptive text of the action'
-        return self._text
-
-
-def undoable(generator):
-    ''' Decorator which creates a new undoable action type. 
-    
-    This decorator should be used on a generator of the following format::
-    
-        @undoable
-        def operation(*args):
-            do_operation_code
-            yield 'descriptive text'
-            undo_operator_code
-    '''
-    def inner(*args, **kwargs):
-        action = _Action(generator, args, kwargs)
-        ret = action.do()
-        stack().append(action)
-        if isinstance(ret, tuple):
-            if len(ret) == 1:
-                return ret[0]
-            elif len(ret) == 0:
-                return None
-        return ret
-    return inner
-
-
-class _Group:
-    ''' A undoable group context manager. '''
-
-    def __init__(self, desc):
-        self._desc = desc
-        self._stack = []
-
-    def __enter__(self):
-        # Nested groups have to return to the enclosing group.
-        self._outer_receiver = stack()._receiver
-        stack().setreceiver(self._stack)
-
-    def __exit__(self, exc_type, exc_val, exc_tb):
-        stack()._receiver = self._outer_receiver
-        # Actions completed before an exception must stay undoable.
-        if exc_type is None or self._stack:
-            stack().append(self)
-        return False
-
-    def undo(self):
-        for undoable in reversed(self._stack):
-            undoable.undo()
-
-    def do(self):
-        for undoable in self._stack:
-            undoable.do()
-
-    def text(self):
-        return self._desc.format(count=len(self._stack))
-
-
-def group(desc):
-    ''' Return a context manager for grouping undoable actions. 
-    
-    All actions which occur within the group will be undone by a single call
-    of `stack.undo`, e.g.
-    
-    >>> @undoable
-    ... def operation(n):
-    ...     yield
-    ...     print(n)
-    >>> with group('text'):
-    ...     for n in range(3):
-    ...         operation(n)
-    >>> operation(3)
-    >>> stack().undo()
-    3
-    >>> stack().undo()
-    2
-    1
-    0
-    '''
-    return _Group(desc)
-
-
-class Stack:
-    ''' The main undo stack. 
-        
-    The two key features are the :func:`redo` and :func:`undo` methods. If an 
-    exception occurs during doing or undoing a undoable, the undoable
-    aborts and the stack is cleared to avoid any further data corruption. 
-    
-    The stack provides two properties for tracking actions: *docallback* 
-    and *undocallback*. Each of these allow a callback function to be set
-    which is called when an action is done or undone repectively. By default, 
-    they do nothing.
-    
-    >>> def done():
-    ...     print('Can now undo: {}'.format(stack().undotext()))
-    >>> def undone():
-    ...     print('Can now redo: {}'.format(stack().redotext()))
-    >>> stack().docallback = done
-    >>> stack().undocallback = undone
-    >>> @undoable
-    ... def action():
-    ...     yield 'An action'
-    >>> action()
-    Can now undo: Undo An action
-    >>> stack().undo()
-    Can now redo: Redo An action
-    >>> stack().redo()
-    Can now undo: Undo An action
-    
-    Setting them back to ``lambda: None`` will stop any further actions.
-    
-    >>> stack().docallback = stack().undocallback = lambda: None
-    >>> action()
-    >>> stack().undo()
-    
-    It is possible to mark a point in the undo history when the document
-    handled is saved. This allows the undo system to report whether a 
-    document has changed. The point is marked using :func:`savepoint` and
-    :func:`haschanged` returns whether or not the state has changed (either
-    by doing or undoing an action). Only one savepoint can be tracked,
-    marking a new one removes the old one.
-    
-    >>> stack().savepoint()
-    >>> stack().haschanged()
-    False
-    >>> action()
-    >>> stack().haschanged()
-    True
-    '''
-
-    def __init__(self):
-        self._undos = deque()
-        self._redos = deque()
-        self._receiver = self._undos
-        self._savepoint = None
-        self.undocallback = lambda: None
-        self.docallback = lambda: None
-
-    def canundo(self):
-        ''' Return *True* if undos are available '''
-        return len(self._undos) > 0
-
-    def canredo(self):
-        ''' Return *True* if redos are available '''
-        return len(self._redos) > 0
-
-    def redo(self):
-        ''' Redo the last undone action. 
-        
-        This is only possible if no other actions have occurred since the 
-        last undo call.
-        '''
-        if self.canredo():
-            undoable = self._redos.pop()
-            with self._pausereceiver():
-                try:
-                    undoable.do()
-                except:
-                    self.clear()
-                    raise
-                else:
-                    self._undos.append(undoable)
-            self.docallback()
-
-    def undo(self):
-        ''' Undo the last action. '''
-        if self.canundo():
-            undoable = self._undos.pop()
-            with self._pausereceiver():
-                try:
-                    undoable.undo()
-                except:
-                    self.clear()
-                    raise
-                else:
-                    self._redos.append(undoable)
-            self.undocallback()
-
-    def clear(self):
-        ''' Clear the undo list. '''
-        self._undos.clear()
-        self._redos.clear()
-        self._savepoint = None
-
-    def undocount(self):
-        ''' Return the number of undos available. '''
-        return len(self._undos)
-
-    def redocount(self):
-        ''' Return the number of redos available. '''
-        return len(self._redos)
-
-    def undotext(self):
-        ''' Return a description of the next available undo. '''
-        if self.canundo():
-            return ('Undo ' + self._undos[-1].text()).strip()
-
-    def redotext(self):
-        ''' Return a description of the next available redo. '''
-        if self.canredo():
-            return ('Redo ' + self._redos[-1].text()).strip()
-
-    @contextlib.contextmanager
-    def _pausereceiver(self):
-        ''' Return a contect manager which temporarily pauses the receiver. '''
-        receiver = self._receiver
-        self.setreceiver([])
-        try:
-            yield
-        finally:
-            self._receiver = receiver
-
-    def setreceiver(self, receiver=None):
-        ''' Set an object to receiver commands pushed onto the stack.
-        
-        By default it is the internal stack, but it can be set (usually
-        internally) to any object with an *append()* method.
-        '''
-        assert hasattr(receiver, 'append')
-        self._receiver = receiver
-
-    def resetreceiver(self):
-        ''' Reset the receiver to the internal stack.'''
-        self._receiver = self._undos
-
-    def append(self, action):
-        ''' Add a undoable to the stack, using ``receiver.append()``. '''
-        if self._receiver is not None:
-            self._receiver.append(action)
-        if self._receiver is self._undos:
-            self._redos.clear()
-            self.docallback()
-
-    def savepoint(self):
-        ''' Set the savepoint. '''
-        # Mark the action itself, number of undos can repeat for a different history.
-        self._savepoint = (self._last_action(),)
-
-    def haschanged(self):
-        ''' Return *True* if the state has changed since the savepoint. 
-        
-        This will always return *True* if the savepoint has not been set.
-        '''
-        return self._savepoint is None or self._savepoint[0] is not self._last_action()
-
-    def _last_action(self):
-        return self._undos[-1] if self._undos else None
-
-
-_stack = None
-
-def stack():
-    ''' Return the currently used stack.
-    
-    If no stack has been set, a new one is created and set.
-    '''
-    global _stack
-    if _stack is None:
-        _stack = Stack()
-    return _stack
-
-def setstack(stack):
-    ''' Set the undo stack to a specific `Stack` object.'''
-    global _stack
-    _stack = stack
+#!/usr/bin/env python3
+# -*- coding: utf-8 -*-
+#
+# Copyright (c) 2011 David Townshend
+#
+# This program is free software; you can redistribute it and/or modify it
+# under the terms of the GNU General Public License as published by the
+# Free Software Foundation; either version 2 of the License, or (at your
+# option) any later version.
+#
+# This program is distributed in the hope that it will be useful, but
+# WITHOUT ANY WARRANTY; without even the implied warranty of MERCHANTABILITY
+# or FITNESS FOR A PARTICULAR PURPOSE.  See the GNU General Public License
+# for more details.
+#
+# You should have received a copy of the GNU General Public License along
+# with this program; if not, write to the Free Software Foundation, Inc.,
+# 675 Mass Ave, Cambridge, MA 02139, USA.
+
+__version__ = '0.5.1'
+__author__ = 'David Townshend'
+
+__all__ = ['undoable', 'group', 'Stack', 'stack', 'setstack']
+
+import contextlib
+
+from collections import deque
+
+class _Action:
+    ''' This represents an action which can be done and undone.
+    
+    It is the result of a call on an undoable function and has
+    three methods: ``do()``, ``undo()`` and ``text()``.  The first value
+    returned by the internal call in ``do()`` is the value which will 
+    subsequently be returned by ``text``.  Any remaining values are 
+    returned by ``do()``.
+    '''
+    def __init__(self, generator, args, kwargs):
+        self._generator = generator
+        self.args = args
+        self.kwargs = kwargs
+        self._text = ''
+
+    def do(self):
+        'Do or redo the action'
+        self._runner = self._generator(*self.args, **self.kwargs)
+        rets = next(self._runner)
+        if isinstance(rets, tuple):
+            self._text = rets[0]
+            return rets[1:]
+        elif rets is None:
+            self._text = ''
+            return None
+        else:
+            self._text = rets
+            return None
+
+    def undo(self):
+        'Undo the action'
+        try:
+            next(self._runner)
+        except StopIteration:
+            pass
+        # Delete it so that its not accidentally called again
+        del self._runner
+
+    def text(self):
+        'Return the descriptive text of the action'
+        return self._text
+
+
+def undoable(generator):
+    ''' Decorator which creates a new undoable action type. 
+    
+    This decorator should be used on a generator of the following format::
+    
+        @undoable
+        def operation(*args):
+            do_operation_code
+            yield 'descriptive text'
+            undo_operator_code
+    '''
+    def inner(*args, **kwargs):
+        action = _Action(generator, args, kwargs)
+        ret = action.do()
+        stack().append(action)
+        if isinstance(ret, tuple):
+            if len(ret) == 1:
+                return ret[0]
+            elif len(ret) == 0:
+                return None
+        return ret
+    return inner
+
+
+class _Group:
+    ''' A undoable group context manager. '''
+
+    def __init__(self, desc):
+        self._desc = desc
+        self._stack = []
+
+    def __enter__(self):
+        # Nested groups have to return to the enclosing group.
+        self._outer_receiver = stack()._receiver
+        stack().setreceiver(self._stack)
+
+    def __exit__(self, exc_type, exc_val, exc_tb):
+        stack()._receiver = self._outer_receiver
+        # Actions completed before an exception must stay undoable.
+        if exc_type is None or self._stack:
+            stack().append(self)
+        return False
+
+    def undo(self):
+        for undoable in reversed(self._stack):
+            undoable.undo()
+
+    def do(self):
+        for undoable in self._stack:
+            undoable.do()
+
+    def text(self):
+        return self._desc.format(count=len(self._stack))
+
+
+def group(desc):
+    ''' Return a context manager for grouping undoable actions. 
+    
+    All actions which occur within the group will be undone by a single call
+    of `stack.undo`, e.g.
+    
+    >>> @undoable
+    ... def operation(n):
+    ...     yield
+    ...     print(n)
+    >>> with group('text'):
+    ...     for n in range(3):
+    ...         operation(n)
+    >>> operation(3)
+    >>> stack().undo()
+    3
+    >>> stack().undo()
+    2
+    1
+    0
+    '''
+    return _Group(desc)
+
+
+class Stack:
+    ''' The main undo stack. 
+        
+    The two key features are the :func:`redo` and :func:`undo` methods. If an 
+    exception occurs during doing or undoing a undoable, the undoable
+    aborts and the stack is cleared to avoid any further data corruption. 
+    
+    The stack provides two properties for tracking actions: *docallback* 
+    and *undocallback*. Each of these allow a callback function to be set
+    which is called when an action is done or undone repectively. By default, 
+    they do nothing.
+    
+    >>> def done():
+    ...     print('Can now undo: {}'.format(stack().undotext()))
+    >>> def undone():
+    ...     print('Can now redo: {}'.format(stack().redotext()))
+    >>> stack().docallback = done
+    >>> stack().undocallback = undone
+    >>> @undoable
+    ... def action():
+    ...     yield 'An action'
+    >>> action()
+    Can now undo: Undo An action
+    >>> stack().undo()
+    Can now redo: Redo An action
+    >>> stack().redo()
+    Can now undo: Undo An action
+    
+    Setting them back to ``lambda: None`` will stop any further actions.
+    
+    >>> stack().docallback = stack().undocallback = lambda: None
+    >>> action()
+    >>> stack().undo()
+    
+    It is possible to mark a point in the undo history when the document
+    handled is saved. This allows the undo system to report whether a 
+    document has changed. The point is marked using :func:`savepoint` and
+    :func:`haschanged` returns whether or not the state has changed (either
+    by doing or undoing an action). Only one savepoint can be tracked,
+    marking a new one removes the old one.
+    
+    >>> stack().savepoint()
+    >>> stack().haschanged()
+    False
+    >>> action()
+    >>> stack().haschanged()
+    True
+    '''
+
+    def __init__(self):
+        self._undos = deque()
+        self._redos = deque()
+        self._receiver = self._undos
+        self._savepoint = None
+        self.undocallback = lambda: None
+        self.docallback = lambda: None
+
+    def canundo(self):
+        ''' Return *True* if undos are available '''
+        return len(self._undos) > 0
+
+    def canredo(self):
+        ''' Return *True* if redos are available '''
+        return len(self._redos) > 0
+
+    def redo(self):
+        ''' Redo the last undone action. 
+        
+        This is only possible if no other actions have occurred since the 
+        last undo call.
+        '''
+        if self.canredo():
+            undoable = self._redos.pop()
+            with self._pausereceiver():
+                try:
+                    undoable.do()
+                except:
+                    self.clear()
+                    raise
+                else:
+                    self._undos.append(undoable)
+            self.docallback()
+
+    def undo(self):
+        ''' Undo the last action. '''
+        if self.canundo():
+            undoable = self._undos.pop()
+            with self._pausereceiver():
+                try:
+                    undoable.undo()
+                except:
+                    self.clear()
+                    raise
+                else:
+                    self._redos.append(undoable)
+            self.undocallback()
+
+    def clear(self):
+        ''' Clear the undo list. '''
+        self._undos.clear()
+        self._redos.clear()
+        self._savepoint = None
+
+    def undocount(self):
+        ''' Return the number of undos available. '''
+        return len(self._undos)
+
+    def redocount(self):
+        ''' Return the number of redos available. '''
+        return len(self._redos)
+
+    def undotext(self):
+        ''' Return a description of the next available undo. '''
+        if self.canundo():
+            return ('Undo ' + self._undos[-1].text()).strip()
+
+    def redotext(self):
+        ''' Return a description of the next available redo. '''
+        if self.canredo():
+            return ('Redo ' + self._redos[-1].text()).strip()
+
+    @contextlib.contextmanager
+    def _pausereceiver(self):
+        ''' Return a contect manager which temporarily pauses the receiver. '''
+        receiver = self._receiver
+        self.setreceiver([])
+        try:
+            yield
+        finally:
+            self._receiver = receiver
+
+    def setreceiver(self, receiver=None):
+        ''' Set an object to receiver commands pushed onto the stack.
+        
+        By default it is the internal stack, but it can be set (usually
+        internally) to any object with an *append()* method.
+        '''
+        assert hasattr(receiver, 'append')
+        self._receiver = receiver
+
+    def resetreceiver(self):
+        ''' Reset the receiver to the internal stack.'''
+        self._receiver = self._undos
+
+    def append(self, action):
+        ''' Add a undoable to the stack, using ``receiver.append()``. '''
+        if self._receiver is not None:
+            self._receiver.append(action)
+        if self._receiver is self._undos:
+            self._redos.clear()
+            self.docallback()
+
+    def savepoint(self):
+        ''' Set the savepoint. '''
+        # Mark the action itself, number of undos can repeat for a different history.
+        self._savepoint = (self._last_action(),)
+
+    def haschanged(self):
+        ''' Return *True* if the state has changed since the savepoint. 
+        
+        This will always return *True* if the savepoint has not been set.
+        '''
+        return self._savepoint is None or self._savepoint[0] is not self._last_action()
+
+    def _last_action(self):
+        return self._undos[-1] if self._undos else None
+
+
+_stack = None
+
+def stack():
+    ''' Return the currently used stack.
+    
+    If no stack has been set, a new one is created and set.
+    '''
+    global _stack
+    if _stack is None:
+        _stack = Stack()
+    return _stack
+
+def setstack(stack):
+    ''' Set the undo stack to a specific `Stack` object.'''
+    global _stack
+    _stack = stack
-- 
2.43.0


From 7f7da222545e24a7a7b95d638f3be8dfce86cbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:45 +0000
Subject: [PATCH 72/88] fix: nesting of small polygons far from the origin was
 wrong, shift of the test point was lost in rounding

---
 src/bgem/polygons/polygon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bgem/polygons/polygon.py b/src/bgem/polygons/polygon.py
index db0dbb3..bfaeb03 100644
--- a/src/bgem/polygons/polygon.py
+++ b/src/bgem/polygons/polygon.py
@@ -211,6 +211,8 @@ class Wire(idmap.IdObject):
         if side == right_side:
             norm = -norm
         eps = 1e-10  # TODO: review this value to be as close to the line as possible while keep intersection work
+        # the shift must not get lost in rounding of large coordinates
+        eps += 16 * np.spacing(np.max(np.abs(seg.vtxs[out_vtx].xy))) / np.linalg.norm(tang)
         inner_point = seg.vtxs[out_vtx].xy + 0.5 * tang + eps * norm
         return self.contains_point(inner_point)
 
-- 
2.43.0


From 7be6a9ab9a835038b6e4cb407a06d152de8a91e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 73/88] fix: bilinear quad far from the origin was taken for a
 linear one

---
 src/bgem/bspline/bspline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline.py b/src/bgem/bspline/bspline.py
index 12da0db..decc3cf 100644
--- a/src/bgem/bspline/bspline.py
+++ b/src/bgem/bspline/bspline.py
@@ -734,7 +734,9 @@ class Z_Surface:
         if xy_quad.shape[0] == 3:
             xy_quad = np.concatenate( (xy_quad, v11[None, :]), axis = 0)
 
-        self._linear_map = np.allclose(xy_quad[3], v11)
+        # Tolerance relative to the size of the quad, not to its distance from the origin.
+        quad_size = np.max(np.abs(xy_quad - xy_quad[1]))
+        self._linear_map = np.allclose(xy_quad[3], v11, rtol=0, atol=1e-5 * quad_size)
         if self._linear_map:
             # linear case
             self.quad = xy_quad
-- 
2.43.0


From f849af3bbed6fc3cb306c3712b0abad605a56a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:51 +0000
Subject: [PATCH 74/88] fix: healing of meshes of large dimensions failed on an
 absolute tolerance in an assertion

---
 src/bgem/gmsh/heal_mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index af9f00c..a159855 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -679,7 +679,9 @@ class HealMesh:
         normal_component = ele.shape.nodes @ common_normal
         avg = np.average(normal_component)
         flat_nodes = ele.shape.nodes - (normal_component - avg)[:, None] * common_normal[None, :]
-        assert np.isclose(np.linalg.det(flat_nodes[1:, :] - flat_nodes[0, :]), 0.0)
+        # Check the projection relative to the size of the element and to the rounding of its coordinates.
+        size, max_coord = np.max(ele.shape.edge_lens), np.max(np.abs(ele.shape.nodes))
+        assert abs(np.linalg.det(flat_nodes[1:, :] - flat_nodes[0, :])) <= size ** 2 * (1e-8 * size + 1e-14 * max_coord)
 
         # cases for projected shapes
         cos_face_norm = ele.shape.face_normals @ common_normal
-- 
2.43.0


From d67a08570e41fad9b879d68771cd55017f0c3d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:51 +0000
Subject: [PATCH 75/88] fix: check of BREP vertices against curves and surfaces
 was void far from the origin and too strict for zero coordinates

---
 src/bgem/bspline/brep_writer.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/bgem/bspline/brep_writer.py b/src/bgem/bspline/brep_writer.py
index 3a0be4a..033b661 100644
--- a/src/bgem/bspline/brep_writer.py
+++ b/src/bgem/bspline/brep_writer.py
@@ -200,6 +200,15 @@ def curve_from_bs( curve):
     c._bs_curve = curve
     return c
 
+def _check_close(point, repr_pt, aabb):
+    """
+    Check that given vertex point matches the point of its curve or surface. Tolerance is relative to the size of
+    the curve or surface given by its bounding box, independent of its distance from the origin.
+    """
+    size = np.max(np.abs(np.array(aabb[1]) - np.array(aabb[0])))
+    if not np.allclose(np.array(point), repr_pt, rtol=1e-12, atol=1.0e-3 * size):
+        raise Exception("Point: {} far from curve repr: {}".format(point, repr_pt))
+
 class Curve3D:
     """
     Defines a 3D curve as B-spline. We shall work only with B-splines of degree 2.
@@ -232,8 +241,7 @@ class Curve3D:
     def _eval_check(self, t, point):
         if hasattr(self, '_bs_curve'):
             repr_pt = self._bs_curve.eval(t)
-            if not np.allclose(np.array(point), repr_pt , rtol = 1.0e-3):
-                raise Exception("Point: {} far from curve repr: {}".format(point, repr_pt))
+            _check_close(point, repr_pt, self._bs_curve.aabb())
 
 
     def _dfs(self, groups):
@@ -369,8 +377,7 @@ class Surface:
     def _eval_check(self, u, v, point):
         if hasattr(self, '_bs_surface'):
             repr_pt = self._bs_surface.eval(u, v)
-            if not np.allclose(np.array(point), repr_pt, rtol = 1.0e-3):
-                raise Exception("Point: {} far from curve repr: {}".format(point, repr_pt))
+            _check_close(point, repr_pt, self._bs_surface.aabb())
 
 
     def _dfs(self, groups):
-- 
2.43.0


From e78fd908e962e76b081584dd6b08147959dbb968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:51 +0000
Subject: [PATCH 76/88] fix: quad of a surface approximation given as a list of
 points (as documented) was not accepted

---
 src/bgem/bspline/bspline_approx.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index 4edebd9..2555688 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -335,8 +335,8 @@ class SurfaceApprox:
 
     def set_quad(self, quad = None):
         if quad is None:
-            quad = np.array([[0,1], [0,0], [1,0], [1,1]])
-        self.quad = quad
+            quad = [[0,1], [0,0], [1,0], [1,1]]
+        self.quad = np.array(quad, dtype=float)
 
     def compute_default_quad(self):
         """
@@ -402,6 +402,8 @@ class SurfaceApprox:
         start_time = time.time()
         if self.quad is None:
             self.compute_default_quad()
+        # quad may be given as a list of points
+        self.quad = np.array(self.quad, dtype=float)
         if self.nuv is None:
             self.compute_default_nuv()
 
-- 
2.43.0


From 1c1c1cd07efad262cd1ee658b5843d0f799f33a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:31 +0000
Subject: [PATCH 77/88] fix: surface approximation dropped border points of the
 quad due to rounding errors

---
 src/bgem/bspline/bspline_approx.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index 2555688..712807e 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -516,7 +516,8 @@ class SurfaceApprox:
         points_uv = np.dot((self._xy_points - xy_shift), mat_xy_to_uv.T)
 
         # remove points far from unit square
-        eps = 1.0e-15
+        # (the tolerance covers rounding errors for coordinates far from the origin)
+        eps = 1.0e-9
         cut_min = np.array( [ -eps, -eps ])
         cut_max = np.array( [ 1+eps, 1+eps ])
         in_idx = np.all(np.logical_and(cut_min < points_uv,  points_uv <= cut_max), axis=1)
-- 
2.43.0


From fc034cc44151b733dee041292b3db6dd0d67502e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:08 +0000
Subject: [PATCH 78/88] fix: merging of points connected by a segment or in
 other order than around the point failed in the middle

---
 src/bgem/polygons/polygons.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bgem/polygons/polygons.py b/src/bgem/polygons/polygons.py
index 26a9c7f..1385d03 100644
--- a/src/bgem/polygons/polygons.py
+++ b/src/bgem/polygons/polygons.py
@@ -547,10 +547,15 @@ class PolygonDecomposition:
         b_can_move = b_can_move and (b.is_free() or not getattr(b.segment[0].attr, 'boundary', False))
         if b_can_move:
             #a.move(a_diff)
-            for seg, b_idx in list(b.segments()):
-                seg_vtxs = list(seg.vtxs)
+            # remove all segments first, a moved segment can cross those not moved yet
+            segments = [(seg, b_idx, list(seg.vtxs)) for seg, b_idx in b.segments()]
+            for seg, b_idx, seg_vtxs in segments:
                 self._rm_segment(seg)
+            for seg, b_idx, seg_vtxs in segments:
                 seg_vtxs[b_idx] = a
+                if seg_vtxs[0] == seg_vtxs[1]:
+                    # segment connecting the merged points
+                    continue
                 new_seg = self._add_segment(*seg_vtxs)
                 self.set_attr(new_seg, seg.attr)
             self._rm_point(b)
-- 
2.43.0


From 8a824589e765de87ca797b2dd407de1d4838759d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:00 +0000
Subject: [PATCH 79/88] fix: healing of a flat triangle made a mesh not
 conforming when its edge and vertex have other common neighbors

---
 src/bgem/gmsh/heal_mesh.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/bgem/gmsh/heal_mesh.py b/src/bgem/gmsh/heal_mesh.py
index a159855..c5e8cd7 100644
--- a/src/bgem/gmsh/heal_mesh.py
+++ b/src/bgem/gmsh/heal_mesh.py
@@ -539,6 +539,29 @@ class HealMesh:
         return self.reset_modified()
 
 
+    def _can_project(self, nid, edge_nids):
+        """
+        Check that projection of the node 'nid' to the edge and splitting the edge by it
+        keeps the tetrahedra conforming (the link condition).
+        """
+        def neighbors(nodes):
+            els = [self.mesh.elements[eid] for eid in self.common_elements(nodes)]
+            return [frozenset(el_nodes) - set(nodes) for el_type, el_tags, el_nodes in els if el_type == 4]
+
+        node_link = neighbors([nid])
+        edge_link = neighbors(list(edge_nids))
+        common = set(n for link in edge_link if nid in link for n in link)
+        for link in edge_link:
+            if nid in link:
+                continue
+            for n in link:
+                if n not in common and any(n in face for face in node_link):
+                    return False
+            if any(link <= face for face in node_link):
+                return False
+        return True
+
+
     def _check_flat_triangle(self, ele):
         if ele.shape.dim < 2: return []
         if ele.shape.dim == 3:
@@ -570,6 +593,10 @@ class HealMesh:
             return []
         print("eid: {} heal small triangle ({}), nodes: {} elens: {}".format(ele.eid, ele.shape.gmsh_gamma(), ele.node_ids, tria_shape.edge_lens))
 
+        if not self._can_project(tria_node_ids[i_max_edge], tria_node_ids[max_edge]):
+            # other elements would degenerate
+            return []
+
         # remove elements connected to the degenerate triangle
         for el_id in self.common_elements(tria_node_ids):
             self.remove_element(el_id)
-- 
2.43.0


From 1ca945c49818bbe70a2438582f263687817b8e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:40 +0000
Subject: [PATCH 80/88] fix: convex hull of many collinear points visited some
 of them repeatedly due to rounding errors

---
 src/bgem/bspline/bspline_approx.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bgem/bspline/bspline_approx.py b/src/bgem/bspline/bspline_approx.py
index 712807e..e2deb50 100644
--- a/src/bgem/bspline/bspline_approx.py
+++ b/src/bgem/bspline/bspline_approx.py
@@ -153,8 +153,10 @@ def convex_hull_2d(sample):
         normal = np.dot(((0,-1),(1,0)),(t-h))
         # Distances from the line.
         dists = np.dot(sample-h, normal)
+        # Points on the line must not be taken as outer ones due to rounding errors.
+        eps = 16 * np.finfo(float).eps * np.linalg.norm(normal) * np.max(np.abs(sample-h))
 
-        outer = np.repeat(sample, dists>0, 0)
+        outer = np.repeat(sample, dists>eps, 0)
         if len(outer):
             pivot = sample[np.argmax(dists)]
             return link(dome(outer, edge(h, pivot)),
-- 
2.43.0


From 60cbbd46d2cd0ca8b542231ae398087510d69729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:07 +0000
Subject: [PATCH 81/88] fix: make_simplex(3) works with the 'geo' kernel, lines
 of its faces are oriented

---
 src/bgem/gmsh/gmsh.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 57b180c..ad45ee4 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -238,7 +238,8 @@ class GeometryOCC:
         """
         points = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]
         lines = [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)]
-        faces = [(0, 1, 2), (0, 3, 4), (2, 3, 5), (1, 4, 5)]
+        # closed loops of oriented lines (line, sign)
+        faces = [((0, 1), (1, 1), (2, 1)), ((0, 1), (4, 1), (3, -1)), ((2, 1), (3, 1), (5, -1)), ((1, 1), (5, 1), (4, -1))]
         if dim == 0:
             res = self.model.addPoint(*points[0])
         elif dim == 1:
@@ -252,7 +253,7 @@ class GeometryOCC:
         elif dim == 3:
             point_ids = [self.model.addPoint(*p) for p in points[:4]]
             line_ids = [self.model.addLine(*[point_ids[p] for p in l]) for l in lines[:6]]
-            loop_ids = [self.model.addCurveLoop([line_ids[l] for l in f]) for f in faces[:4]]
+            loop_ids = [self.model.addCurveLoop([sign * line_ids[l] for l, sign in f]) for f in faces[:4]]
             face_ids = [self.model.addPlaneSurface([loop]) for loop in loop_ids]
             surf_loop = self.model.addSurfaceLoop(face_ids)
             res = self.model.addVolume([surf_loop])
-- 
2.43.0


From 05c5128a91bb002d310cbda25e9f24f4e8ab17bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:07 +0000
Subject: [PATCH 82/88] fix: entity shared by more objects of the same region
 is in the physical group just once

---
 src/bgem/gmsh/gmsh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index ad45ee4..dc3e506 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -415,7 +415,7 @@ class GeometryOCC:
 
         # set physical groups
         for reg, tags in reg_to_tags.values():
-            reg._gmsh_id = gmsh.model.addPhysicalGroup(reg.dim, tags, tag=-1)
+            reg._gmsh_id = gmsh.model.addPhysicalGroup(reg.dim, sorted(set(tags)), tag=-1)
             gmsh.model.setPhysicalName(reg.dim, reg._gmsh_id, reg.name)
 
     def make_mesh(self, objects: List['ObjectSet'], dim=3, eliminate=True) -> None:
-- 
2.43.0


From e0cbba50a2970ec780c3b237b40c4cfa8246618b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:42 +0000
Subject: [PATCH 83/88] fix: repeated make_mesh replaces the physical groups of
 the previous mesh

---
 src/bgem/gmsh/gmsh.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index dc3e506..41c6c41 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -213,6 +213,7 @@ class GeometryOCC:
         print("GMSH initialized")
 
         self._region_names = {}
+        self._physical_names = []
         self._need_synchronize = False
 
         gmsh.option.setNumber("General.Terminal", kwargs.get('verbose', False))
@@ -413,7 +414,11 @@ class GeometryOCC:
                     reg_to_tags[id][0].set_unique_name(i)
                     used_names.add(reg_to_tags[id][0].name)
 
-        # set physical groups
+        # replace physical groups of the previous mesh
+        gmsh.model.removePhysicalGroups()
+        for name in self._physical_names:
+            gmsh.model.removePhysicalName(name)
+        self._physical_names = [reg.name for reg, tags in reg_to_tags.values()]
         for reg, tags in reg_to_tags.values():
             reg._gmsh_id = gmsh.model.addPhysicalGroup(reg.dim, sorted(set(tags)), tag=-1)
             gmsh.model.setPhysicalName(reg.dim, reg._gmsh_id, reg.name)
-- 
2.43.0


From b54daf9bc56f65a2e05f3e0b5306f892927edae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:42 +0000
Subject: [PATCH 84/88] fix: repeated make_mesh makes a new mesh that respects
 changed mesh steps

---
 src/bgem/gmsh/gmsh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 41c6c41..e4a17da 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -439,6 +439,7 @@ class GeometryOCC:
         if eliminate:
             self.keep_only(group)
         self.synchronize()
+        gmsh.model.mesh.clear()
         gmsh.model.mesh.generate(dim)
         gmsh.model.mesh.removeDuplicateNodes()
         bad_entities = gmsh.model.mesh.getLastEntityError()
-- 
2.43.0


From df7361ce48883d694afa536a7e7b916ec48566b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:59 +0000
Subject: [PATCH 85/88] fix: operations with empty object sets neither fail nor
 lose the object nor leave copies of tools

---
 src/bgem/gmsh/gmsh.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index e4a17da..92f7b4d 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -682,8 +682,11 @@ class ObjectSet:
         :param tool_objects:
         :return:
         """
+        tool = self.factory.group(*tool_objects)
+        if not self.dim_tags or not tool.dim_tags:
+            return ObjectSet(self.factory, [], [])
         sc = self.copy()
-        tool = self.factory.group(*tool_objects).copy()
+        tool = tool.copy()
         objs, map = self.factory.model.intersect(sc.dim_tags, tool.dim_tags)
         factory = self.factory
         factory.model.remove(list(set(objs)), recursive=True)
@@ -739,7 +742,20 @@ class ObjectSet:
         self.regions = regions
 
     def _apply_operation(self, tool_objects, operation):
-        tool_objects = self.factory.group(*tool_objects).copy()
+        tool_objects = self.factory.group(*tool_objects)
+        model = self.factory.model
+        mutual_fragment = operation == model.fragment and len(self.dim_tags) > 1
+        if not self.dim_tags or not (tool_objects.dim_tags or mutual_fragment):
+            # Operation with an empty set, not supported by gmsh.
+            new_obj = ObjectSet(self.factory, self.dim_tags, self.regions)
+            if operation == model.intersect:
+                model.remove(self.dim_tags, recursive=True)
+                new_obj = ObjectSet(self.factory, [], [])
+            self.factory._need_synchronize = True
+            self.invalidate()
+            return new_obj
+
+        tool_objects = tool_objects.copy()
         try:
             new_tags, old_tags_map = operation(self.dim_tags, tool_objects.dim_tags, removeObject=True, removeTool=True)
         except Exception as err :
-- 
2.43.0


From e7144ddcb7255031fbc8c0b21102abae9a5471ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:07 +0000
Subject: [PATCH 86/88] fix: fragment of no objects, make_fractures of no
 fractures

---
 src/bgem/gmsh/gmsh.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 92f7b4d..b8611cb 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -363,6 +363,8 @@ class GeometryOCC:
         :param object_sets:
         :return:
         """
+        if not object_sets:
+            return []
         cumulsizes = list(itertools.accumulate((o.size for o in object_sets)))
         all_dimtags = list(itertools.chain(*[o.dim_tags for o in object_sets]))
 
-- 
2.43.0


From 4c5ee1a682047f36a4b21ca025a99d60ef0c301e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:07 +0000
Subject: [PATCH 87/88] fix: fragment of several sets of the same single entity

---
 src/bgem/gmsh/gmsh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index b8611cb..8bf3a63 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -369,7 +369,7 @@ class GeometryOCC:
         all_dimtags = list(itertools.chain(*[o.dim_tags for o in object_sets]))
 
         try:
-            if len(all_dimtags) > 1:
+            if len(set(all_dimtags)) > 1:
                 new_tags, tags_map = self.model.fragment(all_dimtags, [], removeObject=True, removeTool=True)
             else:
                 # gmsh returns no map for a single entity
-- 
2.43.0


From e7f328f6122d2de9701e7486a78b1358aef7f159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:28 +0000
Subject: [PATCH 88/88] fix: move and fragment of sets with repeated entities

---
 src/bgem/gmsh/gmsh.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/bgem/gmsh/gmsh.py b/src/bgem/gmsh/gmsh.py
index 8bf3a63..1fc3801 100644
--- a/src/bgem/gmsh/gmsh.py
+++ b/src/bgem/gmsh/gmsh.py
@@ -547,18 +547,22 @@ class ObjectSet:
         self.regions = regions
         return self
 
+    def _unique_dim_tags(self):
+        # a group of fragments can contain an entity repeatedly, gmsh can not transform that
+        return list(dict.fromkeys(self.dim_tags))
+
     def translate(self, vector):
-        self.factory.model.translate(self.dim_tags, *vector)
+        self.factory.model.translate(self._unique_dim_tags(), *vector)
         self.factory._need_synchronize = True
         return self
 
     def rotate(self, axis, angle, center=[0, 0, 0]):
-        self.factory.model.rotate(self.dim_tags, *center, *axis, angle)
+        self.factory.model.rotate(self._unique_dim_tags(), *center, *axis, angle)
         self.factory._need_synchronize = True
         return self
 
     def scale(self, scale_vector, center=[0, 0, 0]):
-        self.factory.model.dilate(self.dim_tags, *center, *scale_vector)
+        self.factory.model.dilate(self._unique_dim_tags(), *center, *scale_vector)
         self.factory._need_synchronize = True
         return self
 
@@ -746,7 +750,7 @@ class ObjectSet:
     def _apply_operation(self, tool_objects, operation):
         tool_objects = self.factory.group(*tool_objects)
         model = self.factory.model
-        mutual_fragment = operation == model.fragment and len(self.dim_tags) > 1
+        mutual_fragment = operation == model.fragment and len(set(self.dim_tags)) > 1
         if not self.dim_tags or not (tool_objects.dim_tags or mutual_fragment):
             # Operation with an empty set, not supported by gmsh.
             new_obj = ObjectSet(self.factory, self.dim_tags, self.regions)
-- 
2.43.0

