From 4cf9316282cb1b7f16073dabf2670c5ed4d2ec94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 01/89] fix: circuit returned a stale S-matrix after one of its
 blocks was modified directly

---
 src/pyRFtk/rfCircuit.py | 53 ++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index bb09306..f985e50 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1276,33 +1276,38 @@ class rfCircuit(rfBase):
                            ('flag sNp set to False' if 'sNp' in flags else '(why?)'))
                     tLogger.debug(ident(f'not using sNp: {msg}'))
                     
-                if f != self.f or self.S is None or self.flags != flags:
+                # the S-matrix needs to be recomputed if anything it depends on
+                # changed: this includes the blocks which may have been modified
+                # directly (i.e. not through this circuit)
+                
+                recompute = f != self.f or self.S is None or self.flags != flags
+                
+                for blkID, blk in self.blocks.items():
+                    _debug_ and tLogger.debug(ident(
+                        f'getting S for {blkID}'
+                    ))
+                                    
+                    i1, i2 = blk['loc']
+                    N = len(blk['ports'])
                     
-                    # we need to recompute the S-matrix
+                    if hasattr(blk['object'], 'getS'):
+                        try:
+                            blk['object'].set(**params.get(blkID,{}))
+                        except AttributeError:
+                            pass
+                        # recursively get the lower level S-matrices
+                        S = blk['object'].getS(f, Zbase=self.Zbase, 
+                                               params=blk['params'], 
+                                               flags=flags)
+                    else:
+                        # this is when the object is a np.array
+                        S = blk['object']
                     
-                    for blkID, blk in self.blocks.items():
-                        _debug_ and tLogger.debug(ident(
-                            f'getting S for {blkID}'
-                        ))
-                                        
-                        i1, i2 = blk['loc']
-                        N = len(blk['ports'])
-                        
-                        if hasattr(blk['object'], 'getS'):
-                            try:
-                                blk['object'].set(**params.get(blkID,{}))
-                            except AttributeError:
-                                pass
-                            # recursively get the lower level S-matrices
-                            S = blk['object'].getS(f, Zbase=self.Zbase, 
-                                                   params=blk['params'], 
-                                                   flags=flags)
-                        else:
-                            # this is when the object is a np.array
-                            S = blk['object']
-                        
+                    if not np.array_equal(self.M[i1:i1+N,i2:i2+N], S):
                         self.M[i1:i1+N,i2:i2+N] = S
-                                                        
+                        recompute = True
+                
+                if recompute:
                     M = self.extS()
                     self.f, self.S, self.flags = f, M, flags.copy()
                     
-- 
2.43.0


From 86d148e6c23e47f7bf92af1a2012b9c05483812f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 02/89] fix: re-terminating a port left the previous S-matrix
 in use

---
 src/pyRFtk/rfCircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index f985e50..fcb9d24 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -916,7 +916,7 @@ class rfCircuit(rfBase):
         
             idxA, idxB, eqn = self.T[port]
             self.M[eqn, idxB] = rho
-            self.invM = None
+            self.invM, self.S = None, None
         
         elif port in self.E:
             # this port was and external port
-- 
2.43.0


From 820f3f317e7107b843c1fc941f82b06322e6cb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 03/89] fix: announced Portnames shared their list with ports
 (and the caller) and positions were not reordered

---
 src/pyRFtk/rfCircuit.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index fcb9d24..61f57ef 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -77,7 +77,7 @@ class rfCircuit(rfBase):
         sNp = kwargs.pop('sNp', None)
         
         # why Portnames ? ports is processed already by rfBase
-        self.Portnames = kwargs.pop('Portnames', [])
+        self.Portnames = list(kwargs.pop('Portnames', []))
         
         if kwargs and type_rfCircuit:
             msg = f'unprocessed kwargs: {", ".join([kw for kw in kwargs])}'
@@ -1024,10 +1024,8 @@ class rfCircuit(rfBase):
                                 f'in list of announced port names'
                             )
                 # use external port ordering
-                self.ports = self.Portnames
-                
-            else:
-                self.Portnames = self.ports                   
+                self.xpos = [self.xpos[self.ports.index(p)] for p in self.Portnames]
+                self.ports = list(self.Portnames)
                             
             for p in self.ports:                
                 self.M = np.vstack((
@@ -1042,7 +1040,7 @@ class rfCircuit(rfBase):
         _debug_ and tLogger.debug(ident(f'Portnames= {self.Portnames}'))
         _debug_ and tLogger.debug(ident(f'ports=     {self.ports}'))
         
-        ports = self.Portnames
+        ports = self.ports
         self.idxEs = [ self.E[p] for p in ports]
         idxAs = [self.waves.index('->'+p) for p in ports] # <===== also need to change for different port order
         idxBs = [self.waves.index('<-'+p) for p in ports] # <===== also need to change for different port order
-- 
2.43.0


From ae9d53f33ae5074259ddad9dda4c7c7f23d1dfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 04/89] fix: block of a not yet solved circuit with announced
 Portnames got its ports in the wrong order

---
 src/pyRFtk/rfCircuit.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 61f57ef..b15ce73 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -614,6 +614,9 @@ class rfCircuit(rfBase):
             ))
             return
                 
+        # a circuit's S-matrix comes in the order of its announced ports
+        if hasattr(RFobj, '_use_Portnames'):
+            RFobj._use_Portnames()
         
         # RFobj must have len method (this is also true for an nd.array
         #
@@ -984,6 +987,18 @@ class rfCircuit(rfBase):
             f'< [circuit.terminate]', -1
         ))
 
+    #===========================================================================
+    #
+    # _ u s e _ P o r t n a m e s
+    #
+    def _use_Portnames(self):
+        """puts the ports (and their positions) in the order of the announced
+        Portnames provided these are the present external ports
+        """
+        if sorted(self.Portnames) == sorted(self.ports):
+            self.xpos = [self.xpos[self.ports.index(p)] for p in self.Portnames]
+            self.ports = list(self.Portnames)
+        
     #===========================================================================
     #
     # e x t S
@@ -1024,8 +1039,7 @@ class rfCircuit(rfBase):
                                 f'in list of announced port names'
                             )
                 # use external port ordering
-                self.xpos = [self.xpos[self.ports.index(p)] for p in self.Portnames]
-                self.ports = list(self.Portnames)
+                self._use_Portnames()
                             
             for p in self.ports:                
                 self.M = np.vstack((
-- 
2.43.0


From 8578d3b0505eecc9e3aac89b9bdc2feb22885194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 05/89] fix: addblock consumed the caller's port mapping and
 kept the caller's lists

---
 src/pyRFtk/rfCircuit.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index b15ce73..396e929 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -592,7 +592,7 @@ class rfCircuit(rfBase):
             subblockobj.addblock(subblock, RFobj, ports=ports, params=params, **kwargs)
             self.blocks[name]['object'] = subblockobj
             if '.' not in subblock:
-                self.blocks[name]['params'] = params
+                self.blocks[name]['params'] = dict(params)
                 
             _debug_ and logident(
                 f'< [circuit.addblock] (replaced at a deeper level)', -1
@@ -626,6 +626,7 @@ class rfCircuit(rfBase):
         if hasattr(RFobj,'ports'):
             ports = {} if ports is None else ports
             if isinstance(ports, dict):
+                ports = dict(ports) # don't modify the caller's dict
                 # remap port names (note: empty dict pulls the object's portnames)
                 oports = [ports.pop(_p, _p) for _p in RFobj.ports]
                 # possibly the user supplied non-existing port names
@@ -644,7 +645,7 @@ class rfCircuit(rfBase):
                      'attribute. Therfore a dict port mapping cannot be used.')
                 
             elif isinstance(ports, list):
-                oports = ports
+                oports = ports[:]
     
             elif isinstance(ports, str):
                 oports = [ports % k for k in range(1,N+1)]
@@ -675,7 +676,7 @@ class rfCircuit(rfBase):
         #     xpos += np.zeros(len(oports))
             
         self.blocks[name] = {
-            'params' : params,
+            'params' : dict(params),
             'ports'  : oports,
             'loc'    : self.M.shape,
             'object' : RFobj,
-- 
2.43.0


From 11cb9c1abb33e41f68fd3a9cdfa6b652f41dc302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 06/89] fix: replacing a block with another number of ports
 raised KeyError instead of its message

---
 src/pyRFtk/rfCircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 396e929..411b083 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -603,7 +603,7 @@ class rfCircuit(rfBase):
             if len(RFobj) != len(self.blocks[name]['object']):
                 raise ValueError(
                     f'{whoami(__package__)}: [update {name}] number of ports mismatch: ' 
-                    f'existing {len(self.blocks["object"])}, new {len(RFobj)}')
+                    f'existing {len(self.blocks[name]["object"])}, new {len(RFobj)}')
             
             #TODO: maybe some other checks are in order / necessary
             
-- 
2.43.0


From 2161a60f07439e8a9479802a91d1b3719424fe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 07/89] fix: DEBUG logging made addblock of an array and set of
 a nested block fail

---
 src/pyRFtk/rfCircuit.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 411b083..7b59513 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -327,7 +327,7 @@ class rfCircuit(rfBase):
         _debug_ = logit['DEBUG'] 
         _debug_ and tLogger.debug(ident(
             f'> [circuit._substports] '
-            f'name= {name}, RFobj= {RFobj.Id}, '
+            f'name= {name}, RFobj= {getattr(RFobj, "Id", type(RFobj).__name__)}, '
             f'ports= {ports}' ,
             1
         ))
@@ -558,7 +558,7 @@ class rfCircuit(rfBase):
         _debug_ = logit['DEBUG'] 
         _debug_ and tLogger.debug(ident(
             f'> [circuit.addblock] '
-            f'name= {name}, RFobj= {RFobj.Id}, '
+            f'name= {name}, RFobj= {getattr(RFobj, "Id", type(RFobj).__name__)}, '
             f'ports= {ports}, params={params}, kwargs= {kwargs}',
             1
         ))
@@ -1234,10 +1234,7 @@ class rfCircuit(rfBase):
             except:
                 raise
             
-            attr = [kw for kw in val][0]
-            debug and logident(
-                f'{obj.Id}.{attr} -> {getattr(obj,attr)}'
-            )
+            debug and logident(f'{obj.Id} <- {val}')
                        
         if modified:
             self.invM = None # mark the circuit as not solved
-- 
2.43.0


From 03c79f05d0455274fc9df9a779e20d1120588ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 08/89] fix: circuit set() did not accept the documented dict
 argument

---
 src/pyRFtk/rfCircuit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 7b59513..307cb6d 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1174,6 +1174,9 @@ class rfCircuit(rfBase):
                 if isinstance(ak, tuple) and len(ak) == 2:
                     kwargs = dict([ak], **kwargs)
                     
+                elif isinstance(ak, dict):
+                    kwargs = dict(ak, **kwargs)
+                    
                 elif isinstance(ak,str) and len(largs)>0:
                     vk = largs.pop(0)
                     kwargs = dict([(ak,vk)], **kwargs)
-- 
2.43.0


From 426282127002ce0ee171323f2077aefbdbf7f8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:30 +0000
Subject: [PATCH 09/89] fix: Solution failed when the ports of a nested circuit
 were renamed

---
 src/pyRFtk/rfCircuit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 307cb6d..ef5b7a8 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1603,10 +1603,12 @@ class rfCircuit(rfBase):
                 if hasattr(obj, 'Solution') and (snodesleft != []):   
                     # -> build the excitation to pass on to the Solution method.    
                     
+                    # [addblock might have renamed the object's ports]
+                    
                     Ek = {}
-                    for pobj in obj.ports:
+                    for pobj, pblk in zip(obj.ports, blk['ports']):
                         try:
-                            Ek[pobj] = self.tSol[f'{blkID}.{pobj}'][2]
+                            Ek[pobj] = self.tSol[f'{blkID}.{pblk}'][2]
                             # print(f'[OK] {blkID}.{pobj} -> {Ek[pobj]:7.3f}')
                         except KeyError:
                             for k, s in self.tSol.items():
-- 
2.43.0


From 7465655413d28d152d3baf466e17623c1473b869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:23 +0000
Subject: [PATCH 10/89] fix: position of created, consumed or array ports could
 not be found (maxV, connect)

---
 src/pyRFtk/rfCircuit.py | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index ef5b7a8..4ecfab6 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -745,26 +745,23 @@ class rfCircuit(rfBase):
 
         :param node: The node
         """
-        relpos, obj = 0., self
-        while '.' in node:
-            try:
-                onode = node # belts and braces :)
-                blk, node = (node.split('.',1)+[None])[:2]
-                block = obj.blocks[blk]
-                relpos += block['xpos']
-                obj = block['object']
-            except AttributeError: # because obj is not a circuit (= no .blocks)
-                node = onode
-                break
-            except KeyError:
-                # because the node's toplevel block is this self self ?
-                return self.getpos(node)
-        try:  
-            kp =block['ports'].index(node)
-        except:
-            kp = obj.ports.index(node)
-            
-        return relpos + obj.xpos[kp]
+        if node in self.nodes:
+            # created by connect or deembed at this level
+            return self.nodes[node]
+        
+        blk, port = (node.split('.',1)+[None])[:2]
+        block = self.blocks[blk]
+        relpos, obj = block['xpos'], block['object']
+        
+        if port in block['ports']:
+            kp = block['ports'].index(port)
+            if hasattr(obj, 'blocks'):
+                # the port of a circuit has its own name inside that circuit
+                return relpos + obj.getpos(obj.ports[kp])
+            # note an np.array like object has no xpos
+            return relpos + (obj.xpos[kp] if hasattr(obj, 'xpos') else 0.)
+            
+        return relpos + obj.getpos(port)
                 
     #===========================================================================
     #
@@ -807,7 +804,8 @@ class rfCircuit(rfBase):
             self.ports.append(p)
             # here we need to make assumptions on the position of the new port
             # -> we take the position of the first port in the list
-            self.xpos.append(self.getpos(oldports[0]))
+            self.nodes[p] = self.getpos(oldports[0])
+            self.xpos.append(self.nodes[p])
             
         _debug_ and tLogger.debug(ident(f'self.ports = {", ".join(self.ports)}', 0))
         
-- 
2.43.0


From 4534b9b796b7b8cb51b93c22e2ab1000c7f976bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:23 +0000
Subject: [PATCH 11/89] fix: a refused connect left the circuit partially
 modified

---
 src/pyRFtk/rfCircuit.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 4ecfab6..a19d68b 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -798,6 +798,17 @@ class rfCircuit(rfBase):
         oldports = [p for p in ports if ('->'+p) in self.waves]
         _debug_ and tLogger.debug(ident(f'old ports: {", ".join(oldports)}', 0))
         
+        # check before anything is modified
+        if not oldports:
+            raise ValueError(
+                f'{whoami(__package__)}: nothing to connect {newports} to'  
+            )
+        for p in oldports:
+            if p not in self.ports or oldports.count(p) > 1:
+                raise ValueError(
+                    f'{whoami(__package__)}: port {p} already in use'  
+                )
+        
         for p in newports:
             self.waves.append('->'+p)
             self.waves.append('<-'+p) 
-- 
2.43.0


From 0f1e462eaeea11cb0436fe3f0ae5dff03c6fa840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:23 +0000
Subject: [PATCH 12/89] fix: deembed left the port positions behind, and the
 circuit partially modified when refused

---
 src/pyRFtk/rfCircuit.py | 59 +++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 23 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index a19d68b..0b0f3f5 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -440,6 +440,33 @@ class rfCircuit(rfBase):
                 )
             
         
+        # check before anything is modified
+        
+        ports, points = self.ports[:], [w[2:] for w in self.waves]
+        for dp, ip in IntPorts:
+            
+            if ip in points:
+                raise ValueError(
+                    f'{whoami(__package__)}: (internal) port {ip} already exists '
+                )
+            
+            if dp not in ports:
+                raise ValueError(
+                    f'{whoami(__package__)}: (external) port {dp} does not exist'
+                )
+            
+            ports.remove(dp)
+            ports.append(ip)
+            points.append(ip)
+                
+        for dep in ExtPorts:
+            for p in dep:
+                if p not in ports:
+                    raise ValueError(
+                        f'{whoami(__package__)}: (external) port {p} does not exist'
+                    )
+                ports.remove(p)
+            
         # add the columns for the internal ports
         
         self.M = np.hstack((
@@ -452,20 +479,12 @@ class rfCircuit(rfBase):
           
         for dp, ip in IntPorts:
             
-            if ip in self.ports:
-                raise ValueError(
-                    f'{whoami(__package__)}: (internal) port {ip} already exists '
-                )
-            
             # create the new internal port
             self.waves += [f'->{ip}', f'<-{ip}']
+            self.nodes[ip] = self.getpos(dp)
             self.ports.append(ip)
+            self.xpos.append(self.nodes[ip])
                         
-            if dp not in self.ports:
-                raise ValueError(
-                    f'{whoami(__package__)}: (external) port {dp} does not exist'
-                )
-                
             idxA = self.waves.index(f'->{dp}')
             idxB = self.waves.index(f'<-{dp}')
             
@@ -481,7 +500,9 @@ class rfCircuit(rfBase):
             self.M[-1, len(self.waves)-2] = -1
             
             # remove the deembeded port
-            self.ports.pop(self.ports.index(dp))
+            _kp = self.ports.index(dp)
+            self.ports.pop(_kp)
+            self.xpos.pop(_kp)
             
             # update the equation types
             self.eqns.append(f'Di {dp}')
@@ -490,16 +511,6 @@ class rfCircuit(rfBase):
         
         for dp, ep in ExtPorts:
             
-            if dp not in self.ports:
-                raise ValueError(
-                    f'{whoami(__package__)}: (external) port {dp} does not exist'
-                )
-                
-            if ep not in self.ports:
-                raise ValueError(
-                    f'{whoami(__package__)}: (external) port {ep} does not exist'
-                )
-                
             # add two rows to self.M
             self.M = np.vstack((
                 self.M, 
@@ -522,8 +533,10 @@ class rfCircuit(rfBase):
             self.eqns.append(f'De {ep}')
             
             # now we need to remove the remaining ports of the port list
-            self.ports.pop(self.ports.index(dp))
-            self.ports.pop(self.ports.index(ep))
+            for p in (dp, ep):
+                _kp = self.ports.index(p)
+                self.ports.pop(_kp)
+                self.xpos.pop(_kp)
                         
         _debug_ and tLogger.debug(ident(
             f'< [circuit.deembed]', -1
-- 
2.43.0


From f359b78b9949cff916a23a888af21d81ddbaa638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 13/89] fix: rfRLC.getS removed the parameters from the
 caller's dict

---
 src/pyRFtk/rfRLC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index 46d83db..00715fd 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -184,7 +184,7 @@ class rfRLC():
             Zbase = self.Zbase
         
         for p in ['Rs','Ls','Cs','Rp','Lp','Cp']:
-            setattr(self, p, params.pop(p, getattr(self, p)))
+            setattr(self, p, params.get(p, getattr(self, p)))
             
         def get1S(f):
             self.f = f
-- 
2.43.0


From 3760935f31c65df58190e0825ebdb4d073d9cb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 14/89] fix: rfRLC.getS returned a list for an array of
 frequencies

---
 src/pyRFtk/rfRLC.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index 00715fd..cc477ec 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -249,6 +249,7 @@ class rfRLC():
         if hasattr(fs,'__iter__'):
             for f in fs:
                 Ss.append(get1S(f))
+            Ss = np.array(Ss)
         else:
             Ss = get1S(fs)
             
-- 
2.43.0


From bc7eb66b5c20220a4005294fb07902ee3d49c236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 15/89] fix: rfRLC had no length anymore after set()

---
 src/pyRFtk/rfRLC.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index cc477ec..0793b9c 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -147,7 +147,7 @@ class rfRLC():
     # _ _ l e n _ _
     #
     def __len__(self):
-        return len(self.S)
+        return len(self.ports)
     
     #===========================================================================
     #
-- 
2.43.0


From baeef3f17b56f987a9189ede611669dbbf1358e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 16/89] fix: rfRLC at f=0 used the removed np.complex and did
 not normalise to Zbase

---
 src/pyRFtk/rfRLC.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index 0793b9c..78a5779 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -202,14 +202,14 @@ class rfRLC():
                              [  1 - zs ,  -1   ]])
             else:
                 if self.Cs == +np.inf:
-                    zs = self.Rs
+                    zs = self.Rs/Zbase
                     if self.Lp == +np.inf:
                         # (s) -- Rs --+-- (p)
                         #             |
                         #             Rp
                         #             |
                         #            Gnd
-                        yp = 1/self.Rp
+                        yp = 1/self.Rp*Zbase
                         self.S = np.linalg.inv(
                                 [[     1   , 1 + yp],
                                  [-(1 + zs),   1   ]]
@@ -223,7 +223,7 @@ class rfRLC():
                         self.S = np.array(
                             [[ (self.Rs-Zbase)/(self.Rs + Zbase) , 0j ],
                              [               0j                  , -1 ]],
-                            dtype=np.complex)                   
+                            dtype=complex)                   
                 else:
                     if self.Lp == +np.inf:
                         # (s) -- OO --+-- (p)
@@ -237,12 +237,12 @@ class rfRLC():
                             rcp = +1
                         self.S = np.array(
                             [[1, 0j],[0j, rcp ]],
-                            dtype=np.complex)
+                            dtype=complex)
                     else:
                         # (s) -- OO --+-- (p)
                         #             |
                         #            Gnd
-                        self.S = np.array([[1, 0j], [0j, -1]], dtype=np.complex)
+                        self.S = np.array([[1, 0j], [0j, -1]], dtype=complex)
             return self.S
         
         Ss = []
-- 
2.43.0


From 9189fc8584b83b7f79780c0779068ba702e3c02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 17/89] fix: a refused set() had already modified the
 parameters before the unknown one

---
 src/pyRFtk/rfBase.py | 11 ++++++-----
 src/pyRFtk/rfRLC.py  |  5 +++--
 src/pyRFtk/rfTRL.py  |  3 ++-
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index e6367b0..f80edb2 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -215,13 +215,10 @@ class rfBase():
         """set attributes of the object if present
         """
         modified = False
-        for kw, val in kwargs.items():
+        for kw in kwargs:
             try:
                 if kw in self.attrs:
-                    if hasattr(self, kw):
-                        modified |= getattr(self, kw) != val
-                        setattr(self, kw, val)
-                    else:
+                    if not hasattr(self, kw):
                         raise ValueError(
                             f'{whoami(__package__)}: {self.Id} has no attribute {kw}'  # @UndefinedVariable
                         )
@@ -232,6 +229,10 @@ class rfBase():
                         f'{whoami(__package__)}: attribute {kw} of {self.Id} '  # @UndefinedVariable
                         'cannot be set'
                     )
+        for kw, val in kwargs.items():
+            modified |= getattr(self, kw) != val
+            setattr(self, kw, val)
+            
         if modified:
             self.f, self.S = None, None
             
diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index 78a5779..8735d37 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -159,10 +159,11 @@ class rfRLC():
         _debug_ and logident('>', printargs=True)
 
         modified = False
-        for kw, val in kwargs.items():
+        for kw in kwargs:
             if not hasattr(self, kw) or kw not in self.attrs:
-                raise ValueError(f'rfTRL.set: parameter {kw} not present')
+                raise ValueError(f'rfRLC.set: parameter {kw} not present')
         
+        for kw, val in kwargs.items():
             modified |= getattr(self, kw) != val
             setattr(self, kw, val)
             self.kwargs[kw] = val
diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 1577ea2..6152cbf 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -348,11 +348,12 @@ class rfTRL():
                 f'{whoami(__package__)}: not possible because the transmission '  # @UndefinedVariable
                              'line parameters are not constant')
         modified = False
-        for kw, val in kwargs.items():
+        for kw in kwargs:
             if not hasattr(self, kw):
                 raise ValueError(
                     f'{whoami(__package__)}: parameter {kw} not present')  # @UndefinedVariable
                 
+        for kw, val in kwargs.items():
             modified |= getattr(self,kw) != val
             setattr(self, kw, val)
             self.kwargs[kw] = val
-- 
2.43.0


From f17499f5f069fa8ba373efe02ea99ade7ee4f2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 18/89] fix: rfBase.getS returned a list, and a view of the
 stored data to the caller

---
 src/pyRFtk/rfBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index f80edb2..4de14c7 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -276,7 +276,7 @@ class rfBase():
         _debug_ and logident(f'fs={fs}')
         
         if hasattr(fs,'__iter__'):
-            Ss = [self.get1S(fk) for fk in fs]
+            Ss = np.array([self.get1S(fk) for fk in fs])
             
             Zbase = kwargs.pop('Zbase', self.Zbase)
             R = ConvertGeneral(Zbase, Ss, self.Zbase) if Zbase != self.Zbase else Ss
-- 
2.43.0


From 4c86311da00b0dc3d48cddccb609ff50ce283ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 19/89] fix: objects kept the caller's ports and xpos lists

---
 src/pyRFtk/rfBase.py | 6 +++---
 src/pyRFtk/rfRLC.py  | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index 4de14c7..c85e033 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -90,7 +90,7 @@ class rfBase():
             # self.kwused.append('Ss')
             
             if 'ports' in kwargs:
-                self.ports = kwargs.pop('ports')
+                self.ports = list(kwargs.pop('ports'))
                 if len(self.ports) != self.Ss.shape[1]:
                     raise ValueError(
                         'pyRFtk2.rfBase: inconsitent "ports" and "S" given'
@@ -100,7 +100,7 @@ class rfBase():
                 self.ports = [f'{p_}' for p_ in range(1,self.Ss.shape[1]+1)]
             
         elif 'ports' in kwargs:
-            self.ports = kwargs.pop('ports')
+            self.ports = list(kwargs.pop('ports'))
             self.Ss = 1j*np.zeros((0, len(self.ports),len(self.ports)))
             # self.kwused.append('ports')
             
@@ -118,7 +118,7 @@ class rfBase():
                 f'Ss [{self.Ss.shape[0]}].'
             )
         
-        self.xpos = kwargs.pop('xpos', [0.] * len(self))
+        self.xpos = copy.copy(kwargs.pop('xpos', [0.] * len(self)))
         # self.kwused.append('xpos')
         
         self.f, self.S = None, None
diff --git a/src/pyRFtk/rfRLC.py b/src/pyRFtk/rfRLC.py
index 8735d37..e851164 100644
--- a/src/pyRFtk/rfRLC.py
+++ b/src/pyRFtk/rfRLC.py
@@ -69,7 +69,7 @@ class rfRLC():
         
         self.Id = kwargs.pop('Id', f'{type(self).__name__}_{_newID()}')
         self.Zbase = kwargs.pop('Zbase', 50.)
-        self.ports = kwargs.pop('ports',['s','p'])
+        self.ports = list(kwargs.pop('ports',['s','p']))
         self.Rs = kwargs.pop('Rs', 0.)
         self.Ls = kwargs.pop('Ls', 0.)
         self.Cs = kwargs.pop('Cs', +np.inf)
@@ -78,7 +78,7 @@ class rfRLC():
         self.Cp = kwargs.pop('Cp', 0.)
         self.f = None
         self.S = np.array([[0,1],[1,0]], dtype=complex)
-        self.xpos = kwargs.pop('xpos',[0., 0.])
+        self.xpos = list(kwargs.pop('xpos',[0., 0.]))
         self.attrs = ['Rs', 'Ls', 'Cs', 'Rp', 'Lp', 'Cp']
     
     #===========================================================================
-- 
2.43.0


From c9d12e4640871f24d1503eccc68a9209b9b50cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 20/89] fix: rfArcObj had no port unless named, returned a
 scalar S, and NaN for its default Larc

---
 src/pyRFtk/rfArcObj.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfArcObj.py b/src/pyRFtk/rfArcObj.py
index f9e0e89..106026c 100644
--- a/src/pyRFtk/rfArcObj.py
+++ b/src/pyRFtk/rfArcObj.py
@@ -50,7 +50,8 @@ class rfArcObj(rfBase):
             
         _debug_ and logident(f'{kwargs}')
         
-        super().__init__(**kwargs)
+        # this is a 1-port
+        super().__init__(**dict({} if 'Ss' in kwargs else {'ports':['1']}, **kwargs))
         
         _debug_ and logident(f'{kwargs}')
         
@@ -81,7 +82,11 @@ class rfArcObj(rfBase):
     #
     def get1S(self, f):
         
-        jwL = 2j * np.pi * f  * self.Larc
-        Ss = (jwL - self.Zbase) / (jwL + self.Zbase)
+        if np.isinf(self.Larc):
+            rc = 1.
+        else:
+            jwL = 2j * np.pi * f  * self.Larc
+            rc = (jwL - self.Zbase) / (jwL + self.Zbase)
+        Ss = np.array([[rc]], dtype=complex)
         self.f, self.S = f, Ss
         return Ss
-- 
2.43.0


From e22dda4f5f6327ba6b95b47d12b833c79295b0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 21/89] fix: ConvertGeneral returned only the first of a list
 of reflection coefficients

---
 src/pyRFtk/ConvertGeneral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/ConvertGeneral.py b/src/pyRFtk/ConvertGeneral.py
index 7c22530..0af2db7 100644
--- a/src/pyRFtk/ConvertGeneral.py
+++ b/src/pyRFtk/ConvertGeneral.py
@@ -132,7 +132,7 @@ def ConvertGeneral(Z2, S1, Z1, type1='V', type2='V'):
     
     elif L == 1:
         _debug_ and logident('< L==1')
-        return [S2[0,0,0]]
+        return S2[:,0,0]
     
     elif L == 2:
         _debug_ and logident('< L==2')
-- 
2.43.0


From a77444ecce5517d086149e24d259b47e1d8a1ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 22/89] fix: S_from_Y called its own module and could not slice
 its result

---
 src/pyRFtk/S_from_Y.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/S_from_Y.py b/src/pyRFtk/S_from_Y.py
index e93a873..66fd44e 100644
--- a/src/pyRFtk/S_from_Y.py
+++ b/src/pyRFtk/S_from_Y.py
@@ -1,7 +1,7 @@
 __updated__ = "2020-12-18 17:56:43"
 
 import numpy as np
-from . import _check_3D_shape_
+from ._check_3D_shape_ import _check_3D_shape_
 
 #===============================================================================
 #
@@ -17,7 +17,7 @@ def S_from_Y(Y, Zbase=50.):
     L, Y = _check_3D_shape_(Y)
     
     Y0 = np.eye(Y.shape[1])/Zbase
-    S = [ (Y0 - Yk) @ np.linalg.inv(Y0 + Yk)  for Yk in Y]
+    S = np.array([ (Y0 - Yk) @ np.linalg.inv(Y0 + Yk)  for Yk in Y])
     
     S = S[0,0,0] if L == 0 else S[:,0,0] if L == 1 else S[0,:,:] if L==2 else S 
     
-- 
2.43.0


From dd505cf56e888bd11800847eee09ac93950cf58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 23/89] fix: copying re-ran the constructor on the caller's
 (possibly since modified) arguments

---
 src/pyRFtk/rfBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index c85e033..932f7ae 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -194,7 +194,7 @@ class rfBase():
         return self.__deepcopy__(self)
     
     def __deepcopy__(self, memo=None):                       # @UnusedVariable
-        other = type(self)(*self.args, **self.kwargs)
+        other = type(self).__new__(type(self))
         for attr, val in self.__dict__.items():
             try:
                 # print(f'copying {attr}')
-- 
2.43.0


From d477e96732bbab4a0b7f22a912e534033f8adc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 24/89] fix: circuit getS handed out its own cached S-matrix

---
 src/pyRFtk/rfCircuit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 0b0f3f5..d424620 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1348,6 +1348,8 @@ class rfCircuit(rfBase):
                     
                 else:
                     M = self.S
+                
+                M = M.copy() # the caller must not get hold of our S
 
             if Zbase and Zbase != self.Zbase:
                 M = ConvertGeneral(Zbase,M,self.Zbase)
-- 
2.43.0


From 60571e16e3448cb88266209537f107c320c56f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 25/89] fix: a given gTL was overwritten with 0 by the TL
 parameter resolver

---
 src/pyRFtk/resolveTLparams.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index 056a559..39eed07 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -303,7 +303,7 @@ class TLresolver():
                                      'ddw': False, 'ddx': False}
                 self.order.append('rTL')
 
-            if not any(avail('sigma', 'tand', 'Am', 'AmdB')):
+            if not any(avail('gTL', 'sigma', 'tand', 'Am', 'AmdB')):
                 # have no attenuation and nothing to compute medium losses
                 # if any losses they must come from the conductors -> gTL = 0
                 setattr(self, 'gTL', lambda w, x: 0.)
@@ -314,7 +314,7 @@ class TLresolver():
         else:
             if not any(avail('Ac', 'AcdB', 'Rs','RsI','RsO',
                              'rTL','rTLO','rTLI', 'rho','rhoI','rhoO',
-                             'sigma', 'tand', 'Am', 'AmdB')):
+                             'gTL', 'sigma', 'tand', 'Am', 'AmdB')):
                 # we have an attenuation but nothing to compute either conductor
                 # or medium losses -> we assume there are no medium losses
                 setattr(self, 'gTL', lambda w, x: 0.)
-- 
2.43.0


From c45e118e964a202b2658590d4ae893d71571d4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 26/89] fix: outer conductor loss of a coaxial line used the
 inner conductor's surface resistance

---
 src/pyRFtk/resolveTLparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index 39eed07..0654c97 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -113,7 +113,7 @@ class TLresolver():
             return self.rTL(w,x) - self.rTLI(w,x)
         
         def _rTLO__qTLO_RsO_(w,x=0):                                         #21
-            return self.qTLO(w,x) * self.RsI(w,x)
+            return self.qTLO(w,x) * self.RsO(w,x)
         
         def _rTL__A_CTL_gTL_LTL_(w,x=0):
             wL = w * self.LTL(w,x)
-- 
2.43.0


From b3c9b3a2149f228c0044dee0302d4f60ec6bd54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 27/89] fix: attenuation given in dB/m made a transmission line
 amplify

---
 src/pyRFtk/resolveTLparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index 0654c97..5f69328 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -240,7 +240,7 @@ class TLresolver():
             ),
             #-- ------------------------------------------------------------- --
             ('A', ('AdB',), 0., lambda w, x:                                 #39
-                1-10**(self.AdB(w,x)/20)
+                self.AdB(w,x) * np.log(10) / 20
             ),
             #-- ------------------------------------------------------------- --            
             # not approximations ...
-- 
2.43.0


From dc0d6c0a68e3670bf30c52e42c578df58442f64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 28/89] fix: a function without arguments could not be used as
 TL parameter

---
 src/pyRFtk/resolveTLparams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index 5f69328..5d3107a 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -453,7 +453,7 @@ class TLresolver():
                     return  (lambda w, x: p(x)), ddw, ddx
                 else:
                     # constant function
-                    return p(), ddw, ddx
+                    return (lambda w, x: p()), ddw, ddx
                   
         # we (should) have a scalar numerical or a 1/2-D array like
         p = np.array(p)
-- 
2.43.0


From 5d21c3bbe4e83083ec6367d3b1e03c9b86b37bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 29/89] fix: rfTRL kept the caller's ports and xpos lists

---
 src/pyRFtk/rfTRL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 6152cbf..3c7a822 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -184,7 +184,7 @@ class rfTRL():
             self.kwargs = kwargs.copy()
             
         self.Id = kwargs.pop('Id','rfTRL_'+_newID())
-        self.ports = kwargs.pop('ports',['1','2'])
+        self.ports = list(kwargs.pop('ports',['1','2']))
         self.L = kwargs.pop('L', 0.)
         self.Zbase = kwargs.pop('Zbase', 50.)
         self.dx = kwargs.pop('dx', 72) # int -> 1/int-th of wavelength 
@@ -199,7 +199,7 @@ class rfTRL():
                         
         if isinstance(xpos, list):
             if len(xpos) == 2:
-                self.xpos = xpos
+                self.xpos = xpos[:]
             else:
                 raise ValueError(
                     'rfTRL.__init__: port count mismatch'
-- 
2.43.0


From 846f787844d286d004ab1c4d0df2bbdcd0181b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 30/89] fix: first Solution, solve or maxV of a circuit with
 announced Portnames mixed up the excitations

---
 src/pyRFtk/rfCircuit.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index d424620..2bed655 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1466,6 +1466,9 @@ class rfCircuit(rfBase):
         ))
         Zbase = self.Zbase if Zbase is None else Zbase
         
+        # the ports get their final (announced) order when first solving
+        S = self.getS(f,Zbase,flags=flags) # (implicitly updates and solves the circuit)
+        
         # incident voltage waves @  Zbase to the circuits feed ports
         Ea = [E[p] for p in self.ports]
         if _debug_ :
@@ -1473,7 +1476,7 @@ class rfCircuit(rfBase):
             tLogger.debug(ident(f'Ea = {Ea}'))
         
         # reflected voltage waves @ Zbase from the circuit's feed ports
-        Eb = self.getS(f,Zbase,flags=flags) @ Ea  # (implicitly updates and solves the circuit)
+        Eb = S @ Ea
         
         # incident voltage waves @ self.Zbase
         Ei = ((Ea + Eb) + self.Zbase/Zbase * (Ea - Eb)) / 2  
@@ -1531,6 +1534,9 @@ class rfCircuit(rfBase):
         
         Zbase = self.Zbase if Zbase is None else Zbase
         
+        # the ports get their final (announced) order when first solving
+        S = self.getS(f,Zbase,flags=flags) # (implicitly updates and solves the circuit)
+        
         # incident voltage waves @  Zbase to the circuits feed ports
         # Ea is a list of excitations in the order of definition of the 
         #    ports of the object
@@ -1538,7 +1544,7 @@ class rfCircuit(rfBase):
         
         # reflected voltage waves @ Zbase from the circuit's feed ports
         # unless gtl is True the sNp based value for S is returned
-        Eb = self.getS(f,Zbase,flags=flags) @ Ea  # (implicitly updates and solves the circuit)
+        Eb = S @ Ea
         
         # incident voltage waves @ self.Zbase
         Ei = ((Ea + Eb) + self.Zbase/Zbase * (Ea - Eb)) / 2  
@@ -1740,6 +1746,9 @@ class rfCircuit(rfBase):
             
         Zbase = self.Zbase if Zbase is None else Zbase
         
+        # the ports get their final (announced) order when first solving
+        S = self.getS(f, Zbase, flags=flags)    # implicitly updates and solves the circuit
+                                        # except if a sNp is present but in that case ...
         try:
             Ea = [E[p] for p in self.ports]
         except KeyError:
@@ -1749,8 +1758,7 @@ class rfCircuit(rfBase):
             ) from None
         
         # print('pyRFtk2.circuit.maxV')
-        Eb = self.getS(f, Zbase, flags=flags) @ Ea   # implicitly updates and solves the circuit
-                                        # except if a sNp is present but in that case ...
+        Eb = S @ Ea
 
         # Ei are the forward waves into the circuit's ports at self.Zbase
         Ei = ((Ea + Eb) + self.Zbase/Zbase * (Ea - Eb)) / 2 
-- 
2.43.0


From a42c6e377415012c7ac87274ad1387c32d6569c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 31/89] fix: rfObject.maxV compared complex voltages and
 returned a complex one

---
 src/pyRFtk/rfObject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 924e4ae..045c016 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -627,7 +627,7 @@ class rfObject():
         Zbase = self.Zbase if Zbase == None else Zbase
         Ea = [E[p] for p in self.ports]
         Eb = self.getS(f, Zbase=Zbase) @ Ea   # implicitly updates and solves the circuit
-        Vi = Ea + Eb
+        Vi = np.abs(Ea + Eb)
         maxVi = np.max(Vi)
         k = np.where(Vi == maxVi)[0][0]
         
-- 
2.43.0


From 71bd1e360c6c0b98244041c64e9eea100271aea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:46 +0000
Subject: [PATCH 32/89] fix: replacing a block that does not exist deeper in
 the circuit added it, making the circuit unusable

---
 src/pyRFtk/rfCircuit.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 2bed655..fab9d0b 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -600,6 +600,12 @@ class rfCircuit(rfBase):
                 print(self.Id)
                 raise
             
+            if '.' not in subblock and subblock not in subblockobj.blocks:
+                # a new block can only be added to the subblock itself
+                raise ValueError(
+                    f'{whoami(__package__)}: [update subblock {name+"."+subblock}]:'  
+                    f' {subblock} not present in {name}.')
+                
             _debug_ and logident(f'adding {subblock} to "{self.Id}".blocks[{name}]')
             
             subblockobj.addblock(subblock, RFobj, ports=ports, params=params, **kwargs)
-- 
2.43.0


From 4e2d43b714ef8959f740ac6e934c102b58f6f4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 33/89] fix: rfCircuit.maxV left its entry on the log record
 stack

---
 src/pyRFtk/rfCircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index fab9d0b..440ac1e 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1882,7 +1882,7 @@ class rfCircuit(rfBase):
                 else:
                     _debug_ and tLogger.debug(ident(f'{blkID} has no maxV attribute'))
         
-        _debug_ and tLogger.debug(ident('< [circuit.maxV]',-1))            
+        _debug_ and logident('<')
         return tmax, nmax, VSWs
     
     #===========================================================================
-- 
2.43.0


From 422f3d448e6a46f70600dc446fbedfccc92bd034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:54 +0000
Subject: [PATCH 34/89] fix: in a copied circuit an element used at several
 levels was no longer one element

---
 src/pyRFtk/rfBase.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index 932f7ae..0dced5e 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -188,17 +188,20 @@ class rfBase():
     # c o p y ,  _ _ c o p y  _ _ ,   _ _ d e e p c o p y _ _
     #
     def copy(self):
-        return self.__deepcopy__(self)
+        return copy.deepcopy(self)
     
     def __copy__(self):
-        return self.__deepcopy__(self)
+        return copy.deepcopy(self)
     
-    def __deepcopy__(self, memo=None):                       # @UnusedVariable
+    def __deepcopy__(self, memo=None):
+        # the memo keeps objects that are used several times in a circuit, at 
+        # whatever level, shared in its copy
+        memo = {} if memo is None else memo
         other = type(self).__new__(type(self))
         for attr, val in self.__dict__.items():
             try:
                 # print(f'copying {attr}')
-                other.__dict__[attr] = copy.deepcopy(val)
+                other.__dict__[attr] = copy.deepcopy(val, memo)
             except:
                 print(f'{whoami(__package__)}: could not deepcopy {attr}')  # @UndefinedVariable
                 raise
-- 
2.43.0


From 495cb7845c618456519af355f3cda54ccc62e31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:18 +0000
Subject: [PATCH 35/89] fix: rfBase.maxV left its entry in the log record
 nesting

---
 src/pyRFtk/rfBase.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index 0dced5e..c64753e 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -493,4 +493,5 @@ class rfBase():
             Id: dict( (p, Vp) for p, Vp in zip(self.ports, absV))
         }
         
+        _debug_ and logident('<')
         return Vmax, where, VSWs
-- 
2.43.0


From ee7d31d9f233404584186efddc1627a8aa4db4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:06 +0000
Subject: [PATCH 36/89] fix: rfObject kept the caller's ports, xpos and
 Portnames lists

---
 src/pyRFtk/rfObject.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 045c016..c642b55 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -149,6 +149,7 @@ class rfObject():
         _ports = kwargs.get('ports', [])
         if isinstance(_ports, str):
             _ports = _ports.split()
+        _ports = list(_ports) # it is the caller's
         _N = len(_ports)
         
         # If the object was created from an argument (e.g. an S-matrix),
@@ -176,7 +177,7 @@ class rfObject():
         self.interp = kwargs.get('interp',rcparams['interp'])
         self.interpkws = kwargs.get('interpkws',rcparams['interpkws'])
             
-        self.xpos = kwargs.get('xpos', [0.]*self.N)
+        self.xpos = list(kwargs.get('xpos', [0.]*self.N))
                 
         # initialize arrays and stuff
         if not hasattr(self,'fs'):
@@ -592,7 +593,7 @@ class rfObject():
             if self.ports:
                 raise ValueError(f'{whoami}: cannot redefine the portnames')
             else:
-                self.ports = Portnames
+                self.ports = list(Portnames)
                 
         # self.ports is defined 
         if len(self.ports) != S.shape[-1]:
-- 
2.43.0


From d8363a6474fdef63962c1f945555d5d72bdd8153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:34 +0000
Subject: [PATCH 37/89] fix: a zero-length line with varying parameters has its
 ends at nan

---
 src/pyRFtk/rfTRL.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 3c7a822..8d2483f 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -440,7 +440,9 @@ class rfTRL():
                         xs.append(xs[-1] + wavlen(f,xs[-1])/self.dx)
                     
                     # may have overshot the end point so we rescale everything
-                    xs = np.array(xs) * self.L/xs[-1]
+                    xs = np.array(xs)
+                    if len(xs) > 1:
+                        xs = xs * self.L/xs[-1]
                     
             else: # step explicitly given
                 if self.dx < 0:
-- 
2.43.0


From 4e229a14519171e85f8e087b093471bdb088886d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:34 +0000
Subject: [PATCH 38/89] fix: points per wavelength of a varying line taken from
 f instead of w

---
 src/pyRFtk/rfTRL.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 8d2483f..fcca7a5 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -437,7 +437,7 @@ class rfTRL():
 
                     xs = [0.]
                     while xs[-1] < self.L:
-                        xs.append(xs[-1] + wavlen(f,xs[-1])/self.dx)
+                        xs.append(xs[-1] + wavlen(w,xs[-1])/self.dx)
                     
                     # may have overshot the end point so we rescale everything
                     xs = np.array(xs)
-- 
2.43.0


From 44d72f20d248a1629789f2cc0aa0850d30a526c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:34 +0000
Subject: [PATCH 39/89] fix: garbage for long varying lines with large steps
 (odeint step limit)

---
 src/pyRFtk/rfTRL.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index fcca7a5..13c2b7e 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -486,11 +486,14 @@ class rfTRL():
                 
             else:
                 
-                sol10 = odeint(eqnVI, [1.,0.,0.,0.], xs, **self.odeparams)
+                # the default number of internal steps between two node points
+                # is too small for long steps (odeint would only warn about it)
+                odeparams = dict({'mxstep': 100000}, **self.odeparams)
+                sol10 = odeint(eqnVI, [1.,0.,0.,0.], xs, **odeparams)
                 U10 = sol10[:,0]+1j*sol10[:,1]
                 I10 = sol10[:,2]+1j*sol10[:,3]
                 
-                sol01 = odeint(eqnVI, [0.,0.,1.,0.], xs, **self.odeparams)
+                sol01 = odeint(eqnVI, [0.,0.,1.,0.], xs, **odeparams)
                 U01 = sol01[:,0]+1j*sol01[:,1]
                 I01 = sol01[:,2]+1j*sol01[:,3]
             
-- 
2.43.0


From 2cd2f9aa1790e4a197f94851dc0af18a53f70033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:34 +0000
Subject: [PATCH 40/89] fix: rfTRL returned its cached arrays, and kept the
 caller's excitation

---
 src/pyRFtk/rfTRL.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 13c2b7e..dbf3d14 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -513,7 +513,7 @@ class rfTRL():
             
         if I0 is None and V0 is None:
             
-            return self.solved[f]['S']
+            return self.solved[f]['S'].copy()
             
         else:
             if I0 is None:
@@ -525,7 +525,7 @@ class rfTRL():
             UIS = self.solved[f]
             VI1s = np.tensordot(UIS['VI'], np.array([V0,I0]), axes=([1],[0]))
             
-            return self.solved[f]['xs'], VI1s[0], VI1s[1]
+            return self.solved[f]['xs'].copy(), VI1s[0], VI1s[1]
             
     #===========================================================================
     #
@@ -589,9 +589,11 @@ class rfTRL():
             
             _, Vsw, Isw = self.solveVI(f, Vs[0], Is[0])
             
-            self.solved[f]['VISWs'][(Ahash, Zbase)] = (Vsw, Isw, E)
+            self.solved[f]['VISWs'][(Ahash, Zbase)] = (Vsw, Isw, dict(E))
             
-        return self.solved[f]['xs'], self.solved[f]['VISWs'][(Ahash, Zbase)]
+        return copy.deepcopy(
+            (self.solved[f]['xs'], self.solved[f]['VISWs'][(Ahash, Zbase)])
+        )
     
     #===========================================================================
     #
-- 
2.43.0


From 7fe4953bb671e81ca88367bb4432f7b079498212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:34 +0000
Subject: [PATCH 41/89] fix: copying an rfTRL depended on the lists and dicts
 it was created with

---
 src/pyRFtk/rfTRL.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index dbf3d14..232a61d 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -188,7 +188,8 @@ class rfTRL():
         self.L = kwargs.pop('L', 0.)
         self.Zbase = kwargs.pop('Zbase', 50.)
         self.dx = kwargs.pop('dx', 72) # int -> 1/int-th of wavelength 
-        self.odeparams = kwargs.pop('odeparams',{'rtol':1E-12, 'atol':1E-12})
+        self.odeparams = dict(
+            kwargs.pop('odeparams',{'rtol':1E-12, 'atol':1E-12}))
         self.sNp = kwargs.pop('sNp', None)
         self.constant = True
         self.f = np.nan
@@ -280,7 +281,9 @@ class rfTRL():
         debug = logit['DEBUG']
         debug and tLogger.debug(ident(f'> circuit.__deepcopy__ {self.Id}', 1))
         
-        other = type(self)(*self.args, **self.kwargs)
+        # do not construct it again: the caller may have changed meanwhile the 
+        # lists and dicts that were passed
+        other = type(self).__new__(type(self))
         for attr, val in self.__dict__.items():
             try: 
                 debug and tLogger.debug(ident(f'copy {attr}'))
-- 
2.43.0


From 8dd16a19965deedd2c7cad8ea0143f65565ed49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:34 +0000
Subject: [PATCH 42/89] fix: maxfun returned a position for the maximum when
 its fit failed

---
 src/pyRFtk/maxfun.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyRFtk/maxfun.py b/src/pyRFtk/maxfun.py
index cd57cc5..2412fa5 100644
--- a/src/pyRFtk/maxfun.py
+++ b/src/pyRFtk/maxfun.py
@@ -64,8 +64,7 @@ def maxfun(xs, ys):
                 xymax = xy
         else:
             debug and tLogger.debug(ident('Warning result outside window'))
-            xymax = 0, 0
-            for xm, ym in zip(xs[idx:idx+3],xs[idx:idx+3]):
+            for xm, ym in zip(xs[idx:idx+3],ys[idx:idx+3]):
                 if ym > xymax[1]:
                     xymax = xm, ym
             
-- 
2.43.0


From 6fb29629d92818b99a65476c564c245b8b19035c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:29 +0000
Subject: [PATCH 43/89] fix: rfBase.get1S and getS returned a view of the
 stored table

---
 src/pyRFtk/rfBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index c64753e..76ae1f9 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -260,7 +260,7 @@ class rfBase():
             )
         
         _debug_ and logident(f'self.Ss={self.Ss}')
-        S = self.Ss[k[0],:,:]
+        S = self.Ss[k[0],:,:].copy()
         _debug_ and logident(f'S[k]={S}')
         self.f, self.S = f, S
         
-- 
2.43.0


From 37717c96bf2ea967f580fb66701fd1dda376a6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:44 +0000
Subject: [PATCH 44/89] fix: mur from vr and epsr (epsr from vr and mur) are
 wrong

---
 src/pyRFtk/resolveTLparams.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index 5d3107a..ac63b6e 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -219,10 +219,10 @@ class TLresolver():
                 1 / np.sqrt(self.mur(w,x) * self.epsr(w,x))
             ),
             ('mur', ('vr', 'epsr'), 0., lambda w, x:                         #33
-                self.epsr(w, x) / self.vr(w, x)**2
+                1 / (self.epsr(w, x) * self.vr(w, x)**2)
             ),
             ('epsr', ('vr','mur'), 0., lambda w, x:                          #34
-                self.mur(w, x) / self.vr(w, x)**2
+                1 / (self.mur(w, x) * self.vr(w, x)**2)
             ),
             #-- ------------------------------------------------------------- --
             ('mur', ('etar', 'vr'), 0., lambda w, x:                         #35
-- 
2.43.0


From a26f080ea37d34d62358d0bc94825ce146cb191e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:44 +0000
Subject: [PATCH 45/89] fix: attenuation of a very lossy line is nan

---
 src/pyRFtk/resolveTLparams.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index ac63b6e..d08a169 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -141,8 +141,12 @@ class TLresolver():
             wC = w * self.CTL(w,x)
             gwC = self.gTL(w,x) / wC 
             rwL = self.rTL(w,x) / wL
+            # (Re(gamma))^2 = (|gamma^2| + Re(gamma^2)) / 2, gamma^2 / (wL * wC) = 
+            #   (rwL * gwC - 1) + j (rwL + gwC)
             rwLgwC1 = (1 - rwL * gwC)
-            a2 = rwLgwC1 * (np.sqrt(1 +((rwL + gwC)/rwLgwC1)**2) - 1) / 2
+            hyp = np.hypot(rwLgwC1, rwL + gwC)
+            a2 = np.where(rwLgwC1 > 0, (rwL + gwC)**2 / (hyp + np.abs(rwLgwC1)),
+                          hyp - rwLgwC1) / 2
             return np.sqrt(a2 * wL * wC)
         
         def _gamma__gjwC_rjwL_(w,x=0):
-- 
2.43.0


From 3be11bda0003d2ad9dd7601d17673c6ab0bb4606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:42 +0000
Subject: [PATCH 46/89] fix: a refused rfObject.setS had already set the port
 names

---
 src/pyRFtk/rfObject.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index c642b55..b25d236 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -569,14 +569,10 @@ class rfObject():
         
         whoami = 'pyRFtk2.rfObject.setS'
         
-        self.interpOK = False
-        self.interpA = None
-        self.interpM = None
-        
         try:
             *_, S =  _check_3D_shape_(S)
         except ValueError:
-            raise ValueError(f'{whoami}: Unexpected shape: {S.shape}')
+            raise ValueError(f'{whoami}: Unexpected shape: {np.shape(S)}')
         
         f =  np.array(f) if hasattr(f, '__iter__') else np.array([f])
                     
@@ -585,21 +581,28 @@ class rfObject():
                 f'{whoami}: number of frequencies ({len(f)}) does match number of '
                 f'S-matrices supplied ({len(S)}.')
         
-        if Portnames == None:
-            if not self.ports:
+        ports = self.ports
+        if Portnames is None:
+            if not ports:
                 # no port names were defined yet: implicitely set to default names
-                self.ports = ['%02d' % k for k in range(S.shape[-1])]
+                ports = ['%02d' % k for k in range(S.shape[-1])]
         else:
-            if self.ports:
+            if ports:
                 raise ValueError(f'{whoami}: cannot redefine the portnames')
             else:
-                self.ports = list(Portnames)
+                ports = list(Portnames)
                 
-        # self.ports is defined 
-        if len(self.ports) != S.shape[-1]:
+        # ports is defined 
+        if len(ports) != S.shape[-1]:
             raise ValueError(
-                f'{whoami}: number of object\'s Portnames ({len(Portnames)}) '
-                f'does not match shape of S ({len(S.shape[-1])})')
+                f'{whoami}: number of object\'s Portnames ({len(ports)}) '
+                f'does not match shape of S ({S.shape[-1]})')
+        
+        # everything checks out: modify the object
+        self.interpOK = False
+        self.interpA = None
+        self.interpM = None
+        self.ports = ports
         
         if len(self.fs) == 0:
             # the object has no frequency entries yet ...
-- 
2.43.0


From c005aa08702511e13a28726c319fde05cfc2f07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:42 +0000
Subject: [PATCH 47/89] fix: an rfObject without ports had no port positions
 once filled

---
 src/pyRFtk/rfObject.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index b25d236..accdfdd 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -603,6 +603,12 @@ class rfObject():
         self.interpA = None
         self.interpM = None
         self.ports = ports
+        if self.N != len(ports):
+            # the object had no ports yet
+            self.N = len(ports)
+            self.xpos = [0.] * self.N
+            self.Zcs = np.array([], dtype=complex).reshape(0, self.N)
+            self.Gms = np.array([], dtype=complex).reshape(0, self.N)
         
         if len(self.fs) == 0:
             # the object has no frequency entries yet ...
@@ -659,8 +665,9 @@ class rfObject():
         self.numbering = r['numbering']
         self.markers = r['markers']
         self.shape = r['shape']
-        self.Zcs = np.array(r['Zc'])
-        self.Gms = np.array(r['Gm'])
+        self.N = len(self)
+        self.Zcs = np.array(r['Zc'], dtype=complex).reshape(-1, self.N)
+        self.Gms = np.array(r['Gm'], dtype=complex).reshape(-1, self.N)
         self.variables = r['variables']
         self.xpos = [0.] * len(self)
         
-- 
2.43.0


From eed342eea813993935fcd3fd47b0afc81f8847bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:42 +0000
Subject: [PATCH 48/89] fix: rfObject tables filled out of order or overwritten
 were inconsistent

---
 src/pyRFtk/rfObject.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index accdfdd..e31c8d4 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -438,8 +438,10 @@ class rfObject():
             self.fs = self.fs[idxs]
             self.Ss = self.Ss[idxs,:,:]
                         
-            self.Zcs = self.Zcs[idxs,:]
-            self.Gms = self.Gms[idxs,:]
+            if len(self.Zcs) == len(idxs):
+                self.Zcs = self.Zcs[idxs,:]
+            if len(self.Gms) == len(idxs):
+                self.Gms = self.Gms[idxs,:]
             
             self.sorted = True
         
@@ -618,13 +620,20 @@ class rfObject():
             # we should never come here
             raise SystemError(f'{whoami}: Shape of S does not match ')
                 
-        self.fs = np.append(self.fs,[f])
-        self.Ss = np.append(self.Ss, S, axis=0)
+        # new data replaces what was there for the same frequencies
+        keep = ~np.isin(self.fs, f)
+        for attr in ['Zcs', 'Gms']:
+            val = getattr(self, attr)
+            if len(val) and len(val) == len(self.fs):
+                # port impedances were read from a touchstone: not known for f
+                setattr(self, attr, np.append(
+                    val[keep], np.full((len(f), self.N), np.nan), axis=0))
+        
+        self.fs = np.append(self.fs[keep],[f])
+        self.Ss = np.append(self.Ss[keep], S, axis=0)
         
         # do not sort each time
-        self.sorted = self.sorted and (
-            (len(self.fs) == 1) or (self.fs[-2] < self.fs[-1])
-        )
+        self.sorted = bool(np.all(np.diff(self.fs) > 0))
         
     #===========================================================================
     #
-- 
2.43.0


From 75774db3e5d6ac2eb9ecd7be070f6b12b020188f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:42 +0000
Subject: [PATCH 49/89] fix: rfObject interpolated old data after sorting
 ports, converting or assigning

---
 src/pyRFtk/rfObject.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index e31c8d4..8a3309d 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -347,6 +347,8 @@ class rfObject():
     def __setitem__(self, k, value):
         self.fs[k] = value[0]
         self.Ss[k,:,:] = value[1]
+        self.interpOK = False
+        self.sorted = bool(np.all(np.diff(self.fs) > 0))
     
     #===========================================================================
     #
@@ -421,7 +423,9 @@ class rfObject():
         else:
             idxs = np.array(self.ports).argsort()
         
+        self.interpOK = False
         self.ports = [self.ports[k] for k in idxs]
+        self.xpos = [self.xpos[k] for k in idxs]
         self.Ss = self.Ss[:,:,idxs][:,idxs,:]
         self.Zcs = self.Zcs[:,idxs]
         self.Gms = self.Gms[:,idxs]
@@ -518,6 +522,7 @@ class rfObject():
         
         self.Ss = ConvertGeneral(newZbase, self.Ss, self.Zbase, 'V', 'V')
         self.Zbase = newZbase
+        self.interpOK = False
     
     #===========================================================================
     #
-- 
2.43.0


From b9987af7abdc8a04ac53efb6e90a148a899a57b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:42 +0000
Subject: [PATCH 50/89] fix: rfObject.getS missed stored frequencies by
 rounding of the unit conversion

---
 src/pyRFtk/rfObject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 8a3309d..b06121e 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -537,7 +537,7 @@ class rfObject():
             1
         ))
         
-        fs = np.array(fs) * FUNITS[kw.pop('funit', self.funit).upper()]/self.fscale
+        fs = np.array(fs) * (FUNITS[kw.pop('funit', self.funit).upper()]/self.fscale)
         Zbase = kw.pop('Zbase',self.Zbase)
         
         def get1S(fk):
-- 
2.43.0


From 32d99e33f4721fe989695e7642c2f7d4b609584c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:31 +0000
Subject: [PATCH 51/89] fix: rfObject.deembed took the frequencies of the table
 to be in Hz

---
 src/pyRFtk/rfObject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index b06121e..fd9281a 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -744,7 +744,7 @@ class rfObject():
     
                 
                 for kS, (f, Sobj) in enumerate(zip(self.fs, self.Ss)):
-                    Strl = TRL.getS(f)
+                    Strl = TRL.getS(f * self.fscale) # Hz
                                         
                     qn = 1 - Strl[0,0] * Sobj[kp,kp]
                     if np.abs(qn) != 0:
-- 
2.43.0


From 29da6ade11595694e7fa0df6552ed80e39346c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:31 +0000
Subject: [PATCH 52/89] fix: rfObject.deembed failed for lengths and dicts,
 emptied the caller's dict and was left half done when refused

---
 src/pyRFtk/rfObject.py | 46 ++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index fd9281a..b90744f 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -724,24 +724,35 @@ class rfObject():
         
         """
           
+        # check everything before modifying anything
+        
+        unknown = [p for p in ports if p not in self.ports]
+        if unknown:
+            raise ValueError(
+                f'pyRFtk2.rfObject.deembed: port(s) '
+                f'{",".join([str(p) for p in unknown])} not found.')
+        
+        TRLs = {}
+        for port, v in ports.items():
+            if isinstance(v,tuple) and len(v) == 2:
+                L, Z = v
+                TRLs[port] = rfTRL(L=-L, Z0TL=Z, Zbase=self.Zbase)
+            elif isinstance(v, (int, float, np.integer, np.floating)):
+                TRLs[port] = rfTRL(L=-v, Z0TL=self.Zbase, Zbase=self.Zbase)
+            elif isinstance(v, dict):
+                v = dict(v, Zbase=self.Zbase) # we need it in self.Zbase
+                if 'L' in v:
+                    v['L'] = -v['L']
+                TRLs[port] = rfTRL(**v)
+            else:
+                raise ValueError(
+                    f'pyRFtk2.rfObject.deembed: invalid deembed data for port {port}')
+    
         self.interpOK = False      
         
         for kp, port in enumerate(self.ports):
-            if port in ports:
-                v = ports.pop(port, (0., self.Zbase))
-                if isinstance(v,tuple) and len(v) == 2:
-                    L, Z = v
-                    TRL = rfTRL(L=-L, Z0TL=Z, Zbase=self.Zbase)
-                elif isinstance(v, [int, float]):
-                    L, Z = v, self.Zbase
-                    TRL = rfTRL(L=-L, Z0TL=Z, Zbase=self.Zbase)
-                elif isinstance(v, dict):
-                    v.pop('Zbase') # we need it in self.Zbase
-                    TRL = rfTRL(**v, Zbase=self.Zbase)
-                else:
-                    raise ValueError(
-                        f'pyRFtk2.rfObject.deembed: invalid deembed data for port {port}')
-    
+            if port in TRLs:
+                TRL = TRLs[port]
                 
                 for kS, (f, Sobj) in enumerate(zip(self.fs, self.Ss)):
                     Strl = TRL.getS(f * self.fscale) # Hz
@@ -777,9 +788,4 @@ class rfObject():
                 
                     self.Ss[kS,:,:] = Sobj[:,:]
 
-        if ports:
-            raise ValueError(
-                f'pyRFtk2.rfObject.deembed: port(s) {",".join([p for p in ports])}'
-                ' not found.')
-
 
-- 
2.43.0


From 63fabcda38957e2d55de31a01a80fafd0761aa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:46 +0000
Subject: [PATCH 53/89] fix: S12 and S21 were exchanged when a 2-port
 touchstone was read back

---
 src/pyRFtk/ReadTSF.py  | 3 +++
 src/pyRFtk/WriteTSF.py | 7 ++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/ReadTSF.py b/src/pyRFtk/ReadTSF.py
index 80b2731..7d72c5e 100644
--- a/src/pyRFtk/ReadTSF.py
+++ b/src/pyRFtk/ReadTSF.py
@@ -105,6 +105,9 @@ def ReadTSF(src, **kwargs):
     # reshape the collected coeffcients
     N = int(round(np.sqrt( len(Ss[0]) )))
     Ss = np.array(Ss).reshape((len(fs), N, N))
+    if N == 2:
+        # touchstone convention for 2-ports: S11 S21 S12 S22
+        Ss = np.transpose(Ss, (0, 2, 1))
     
     # analyse the format string: 
     #  for unnormalized data (R missing) Zbase is set to None
diff --git a/src/pyRFtk/WriteTSF.py b/src/pyRFtk/WriteTSF.py
index e03ba21..68afe8f 100644
--- a/src/pyRFtk/WriteTSF.py
+++ b/src/pyRFtk/WriteTSF.py
@@ -28,9 +28,8 @@ def WriteTSF(object, path2tsf=None,
         comments   : multi-line string
         
         
-        note (I believe) the touchstone specification 1.1 transposes the 
-             the coefficients for .s2p (2-ports): this is not implemented here
-             as it is (apparently) not done in ReadTSF. 
+        note the touchstone specification 1.1 transposes the coefficients for
+             .s2p (2-ports): S11 S21 S12 S22 (so does rfBase.tsf2str and ReadTSF)
         
     """
 
@@ -100,6 +99,8 @@ def WriteTSF(object, path2tsf=None,
     for k,fk in enumerate(fs):
         s += (f'%{num_format[0]}' % (fk / fscale)) + ' '
         d = object.getS(fk, Zbase=zref)
+        if nports == 2: # touchstone convention for 2-ports
+            d = np.transpose(d)
         for kr in range(nports):
             for kc in range(nports):
                 dij = d[kr,kc]
-- 
2.43.0


From 5f591c2e0a6a1f1292b11249984da0443a22525a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:46 +0000
Subject: [PATCH 54/89] fix: a 1-port touchstone with port impedance comments
 could not be read

---
 src/pyRFtk/ReadTSF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/ReadTSF.py b/src/pyRFtk/ReadTSF.py
index 7d72c5e..c94a5e3 100644
--- a/src/pyRFtk/ReadTSF.py
+++ b/src/pyRFtk/ReadTSF.py
@@ -336,8 +336,8 @@ def ReadTSF(src, **kwargs):
                      ' Complex Port Impedances'
                 )
                 
-            Gms = [np.diag(Gmk) for Gmk in Gms]
-            Zcs = [np.diag(Zck) for Zck in Zcs]
+            Gms = np.array([np.diag(Gmk) for Gmk in Gms])
+            Zcs = np.array([np.diag(Zck) for Zck in Zcs])
         
     # get the frequencies and scale for the units
     fs = np.array(fs, dtype=float) * fscale(funit, Tfunit)
-- 
2.43.0


From e4e340ea006509d1b08b026861d2d8e8c122aff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:46 +0000
Subject: [PATCH 55/89] fix: an unpickled rfObject without data had lost the
 shape of its tables

---
 src/pyRFtk/rfObject.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index b90744f..a144d66 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -278,10 +278,11 @@ class rfObject():
                 self.__dict__[var] = value
         
         # get the arrays back
+        N = len(self.ports)
         self.fs = np.array(d['fs'])
-        self.Ss = np.array(d['Ss'])
-        self.Zcs = np.array(d['Zcs'])
-        self.Gms = np.array(d['Gms'])
+        self.Ss = np.array(d['Ss']).reshape((len(d['Ss']), N, N))
+        self.Zcs = np.array(d['Zcs']).reshape((len(d['Zcs']), N))
+        self.Gms = np.array(d['Gms']).reshape((len(d['Gms']), N))
 
     #===========================================================================
     #
-- 
2.43.0


From ca7004eb2315ccfff1e11be1daa4aebb47a1fb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:18 +0000
Subject: [PATCH 56/89] fix: an rfObject kept depending on the interpkws dict
 it was created with

---
 src/pyRFtk/rfObject.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index a144d66..b7072c9 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -175,7 +175,8 @@ class rfObject():
         self.flim = kwargs.get('flim', [0.001, 1000.])
         
         self.interp = kwargs.get('interp',rcparams['interp'])
-        self.interpkws = kwargs.get('interpkws',rcparams['interpkws'])
+        # a copy: it is the caller's
+        self.interpkws = dict(kwargs.get('interpkws',rcparams['interpkws']))
             
         self.xpos = list(kwargs.get('xpos', [0.]*self.N))
                 
-- 
2.43.0


From 1366448328dee06346edd5853785d23f3fcb9e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:41 +0000
Subject: [PATCH 57/89] fix: getlines delivered other lines for a string than
 for a file with the same text

---
 src/pyRFtk/getlines.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/getlines.py b/src/pyRFtk/getlines.py
index f7ea5a7..29a45fc 100644
--- a/src/pyRFtk/getlines.py
+++ b/src/pyRFtk/getlines.py
@@ -1,5 +1,7 @@
 __updated__ = '2021-05-03 14:11:21'
 
+import io
+
 
 def getlines(src):
     """
@@ -24,8 +26,9 @@ def getlines(src):
 #             yield aline.replace('\r','')
             
     def str_next():
-        for aline in src.split('\n'):
-            yield  aline
+        # as read from a file: no additional empty line after a final newline
+        for aline in io.StringIO(src, newline=None):
+            yield aline.replace('\n','')
             
     def file_next():
         for aline in src.readlines():
-- 
2.43.0


From a4b252799102fa551bfbcea230819962ca6a022d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:28 +0000
Subject: [PATCH 58/89] fix: findpath took wildcard characters in the names of
 the directories for patterns

---
 src/pyRFtk/findpath.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/findpath.py b/src/pyRFtk/findpath.py
index 69e605c..a6be975 100755
--- a/src/pyRFtk/findpath.py
+++ b/src/pyRFtk/findpath.py
@@ -8,7 +8,7 @@
 #| 2015-Aug-26 | modified from the original findpath                            |
 #+-------------+----------------------------------------------------------------+
 
-from glob import glob
+from glob import glob, escape
 import os
 
 #===============================================================================
@@ -92,7 +92,8 @@ def findpath(fpattern,
                     print('  %r' % ('.' + root[len(sdir):]))
                     for f in files:
                         print('   %r' % f)
-                fnames = glob(os.path.join(root, fpattern).replace('[', '[[]'))
+                fnames = glob(os.path.join(escape(root), 
+                                           fpattern.replace('[', '[[]')))
                 if fnames:
                     fname = sorted(fnames)[-1]  # take the first / last
                     break
-- 
2.43.0


From bd92d7e9b260ce1444d24d2f45e02d1c25a87c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:25 +0000
Subject: [PATCH 59/89] fix: a comment on the option line of a touchstone was
 refused

---
 src/pyRFtk/ReadTSF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/ReadTSF.py b/src/pyRFtk/ReadTSF.py
index c94a5e3..2044906 100644
--- a/src/pyRFtk/ReadTSF.py
+++ b/src/pyRFtk/ReadTSF.py
@@ -111,7 +111,7 @@ def ReadTSF(src, **kwargs):
     
     # analyse the format string: 
     #  for unnormalized data (R missing) Zbase is set to None
-    items = tformat[1:].upper().split()[::-1] # note we reverse the order here
+    items = tformat[1:].split('!',1)[0].upper().split()[::-1] # note we reverse the order here
     datatype, datafmt, funit, Zbase = 'S', 'MA', 'GHZ', None 
     while len(items):
         kw = items.pop()
-- 
2.43.0


From d52d9f701205f93e6c03e13a407b877a97e8d7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:25 +0000
Subject: [PATCH 60/89] fix: a touchstone without reference impedance could not
 be read; ReadTSF did not tell the impedance of its data

---
 src/pyRFtk/ReadTSF.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pyRFtk/ReadTSF.py b/src/pyRFtk/ReadTSF.py
index 2044906..2c1856d 100644
--- a/src/pyRFtk/ReadTSF.py
+++ b/src/pyRFtk/ReadTSF.py
@@ -40,6 +40,8 @@ def ReadTSF(src, **kwargs):
     #TODO: implement ports, funit
     
     TZbase = kwargs.pop('Zbase', None)
+    if TZbase is None:
+        TZbase = 50.
     Tfunit = kwargs.get('funit', 'GHz')
     Tports = kwargs.get('ports', 'port-%03d')
     Tcomments = kwargs.get('comments',[])
@@ -110,9 +112,9 @@ def ReadTSF(src, **kwargs):
         Ss = np.transpose(Ss, (0, 2, 1))
     
     # analyse the format string: 
-    #  for unnormalized data (R missing) Zbase is set to None
+    #  if R is missing it defaults to 50 Ohm
     items = tformat[1:].split('!',1)[0].upper().split()[::-1] # note we reverse the order here
-    datatype, datafmt, funit, Zbase = 'S', 'MA', 'GHZ', None 
+    datatype, datafmt, funit, Zbase, Zlist = 'S', 'MA', 'GHZ', None, [50.]
     while len(items):
         kw = items.pop()
         if kw in ['S', 'Y', 'Z']:
@@ -351,6 +353,9 @@ def ReadTSF(src, **kwargs):
         pass
     
     ## do some checking
+    if Zbase is None and not len(Zcs):
+        Zbase = Zlist[0]
+        
     nZcs, nZbase = 0, 0
     if len(Zcs) and (nZcs := np.array(Zcs).shape[1]):
         # Zcs (and probably gammas) were present in the file
@@ -405,9 +410,6 @@ def ReadTSF(src, **kwargs):
             Ss = ConvertGeneral(TZbase if TZbase else 50., Ss, Zbase, 'P', 'V')
             # print(f'have converted the data from {Zbase} in the touchstone  to {TZbase}')
     
-        elif Zbase is None: # No Zcs and Zbase is None:
-            Ss = ConvertGeneral(TZbase if TZbase else 50., Ss, Zcs, 'P', 'V')
-        
         else:
             logit['ERROR'] and tLogger.error(f'len(Zcs)[{len(Zcs)}] != N[{N}]')
             logit['ERROR'] and tLogger.error(f'Zcs={Zcs}')
-- 
2.43.0


From 36dadaeb160a4503388ffaa2fe8d420db59afc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:25 +0000
Subject: [PATCH 61/89] fix: !SHAPE with one value and !NUMBERING comments made
 ReadTSF fail

---
 src/pyRFtk/ReadTSF.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/ReadTSF.py b/src/pyRFtk/ReadTSF.py
index 2c1856d..9ac47cb 100644
--- a/src/pyRFtk/ReadTSF.py
+++ b/src/pyRFtk/ReadTSF.py
@@ -175,7 +175,7 @@ def ReadTSF(src, **kwargs):
         if len(tlist) > 0:
             shape = tuple([int(x) for x in tlist[0].split()[:2]])
             if len(shape) == 1:
-                shape.append(0)
+                shape = shape + (0,)
             
         tlist = re.findall('!PART (.+)',aline)
         if len(tlist) > 0:
@@ -186,8 +186,8 @@ def ReadTSF(src, **kwargs):
         tlist = re.findall('!NUMBERING (.+)',aline)
         if len(tlist) > 0:
             numbering = tuple([x.lower() for x in tlist[0].split()[:2]])
-            if len(shape) < 2:
-                shape = shape[0] # so numbering becomes type str rather than tuple
+            if len(numbering) < 2:
+                numbering = numbering[0] # so numbering becomes type str rather than tuple
             
         
     # detect the source of the touchstone
-- 
2.43.0


From bf0686d964454c8824720c5589b1b5a0efc97b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:25 +0000
Subject: [PATCH 62/89] fix: comments between the data of a touchstone with
 port impedances made ReadTSF fail

---
 src/pyRFtk/ReadTSF.py | 83 +++++++++++++++++++++----------------------
 1 file changed, 40 insertions(+), 43 deletions(-)

diff --git a/src/pyRFtk/ReadTSF.py b/src/pyRFtk/ReadTSF.py
index 9ac47cb..e9b52cb 100644
--- a/src/pyRFtk/ReadTSF.py
+++ b/src/pyRFtk/ReadTSF.py
@@ -245,58 +245,55 @@ def ReadTSF(src, **kwargs):
     Zcs, Zcsk = [], []
     lastline = ''
     
-    re_compile = True # check if compiling regexes is faster ... not really
-    if re_compile:
-        reGline = re.compile(r'(?i)\s*(?:Gamma)\s+!?(.+)')
-        reZline = re.compile(r'(?i)\s*(?:Port Impedance)(.+)')
+    reGline = re.compile(r'(?i)\s*(?:Gamma)\s+!?(.+)')
+    reZline = re.compile(r'(?i)\s*(?:Port Impedance)(.+)')
+    
+    def pairs(text):
+        """the complex numbers listed in text; None if it is something else"""
+        try:
+            r = [float(t) for t in text.split()]
+        except ValueError:
+            return None
+        if len(r) % 2:
+            return None
+        return [r[i]+1j*r[i+1] for i in range(0,len(r),2)]
     
     for aline in comments[got_marker:]:
         # check for gamma or port impedance lines
 
-        parts = aline.split('!', 1)
-        if len(parts) > 1:
-            aline, rest = tuple(parts)
-
-        else:
-            aline, rest = parts[0], ''
+        rest = aline.split('!', 1)[-1]
         
-        if re_compile:
-            Gline = reGline.search(rest)
-            Zline = reZline.search(rest)
-        else:
-            Gline = re.findall(r'(?i)\s*(Gamma)\s+!?(.+)',rest)
-            Zline = re.findall(r'(?i)\s*(Port Impedance)(.+)',rest)
+        Gline = reGline.search(rest)
+        Zline = reZline.search(rest)
         
-        
-        if Gline or (lastline == 'gamma' and not Zline):
+        if Gline:
+            vals = pairs(Gline.group(1))
+        elif Zline:
+            vals = pairs(Zline.group(1))
+        else:
+            vals = pairs(rest)
             
-            if lastline != 'gamma':
-                if len(Gmsk):
-                    Gms.append(Gmsk)
-                Gmsk = []
-                if re_compile:
-                    rest = Gline.group(1)
-                else:
-                    rest = Gline[0][1]
-                    
-            r =  rest.split()
-            Gmsk += [float(r[i])+1j*float(r[i+1]) for i in range(0,len(r),2)]
-            lastline='gamma'
-        
-        elif Zline or (lastline == 'impedance' and not aline):
+        if vals is None:
+            # any other comment (which also ends the list of values)
+            lastline = ''
             
-            if lastline != 'impedance':
-                if Zcsk:
-                    Zcs.append(Zcsk)
-                Zcsk = []
-                if re_compile:
-                    rest = Zline.group(1)
-                else:
-                    rest = Zline[0][1]
-                    
-            r =  rest.split()
-            Zcsk += [float(r[i])+1j*float(r[i+1]) for i in range(0,len(r),2)]
+        elif Gline:
+            if len(Gmsk):
+                Gms.append(Gmsk)
+            Gmsk = vals
+            lastline = 'gamma'
+        
+        elif Zline:
+            if len(Zcsk):
+                Zcs.append(Zcsk)
+            Zcsk = vals
             lastline = 'impedance'
+            
+        elif lastline == 'gamma': # continuation lines
+            Gmsk += vals
+            
+        elif lastline == 'impedance':
+            Zcsk += vals
                         
     # append the last Gms and Zcs
     if len(Gmsk):
-- 
2.43.0


From 9fa92c8b5c253459cc60adeab8168937ee9cfcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:25 +0000
Subject: [PATCH 63/89] fix: rfObject ignored the port positions given together
 with a touchstone

---
 src/pyRFtk/rfObject.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index b7072c9..f294bf3 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -685,7 +685,8 @@ class rfObject():
         self.Zcs = np.array(r['Zc'], dtype=complex).reshape(-1, self.N)
         self.Gms = np.array(r['Gm'], dtype=complex).reshape(-1, self.N)
         self.variables = r['variables']
-        self.xpos = [0.] * len(self)
+        if len(self.xpos) != len(self):
+            self.xpos = [0.] * len(self)
         
     #===========================================================================
     #
-- 
2.43.0


From 65e35beee8458a90467c5a203700c3fd0a1ae833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:16 +0000
Subject: [PATCH 64/89] fix: WriteTSF wrote other data than its header told
 (lower case, no format, no reference impedance, Z and Y data)

---
 src/pyRFtk/WriteTSF.py | 54 ++++++++++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/src/pyRFtk/WriteTSF.py b/src/pyRFtk/WriteTSF.py
index 68afe8f..2743d62 100644
--- a/src/pyRFtk/WriteTSF.py
+++ b/src/pyRFtk/WriteTSF.py
@@ -1,9 +1,11 @@
 __updated__ = "2024-12-20 14:21:10"
 
 import numpy as np
-import re
 import time
 
+from .Z_from_S import Z_from_S
+from .Y_from_S import Y_from_S
+
 
 
 #===============================================================================
@@ -41,30 +43,36 @@ def WriteTSF(object, path2tsf=None,
         for line in scomments :
             s += '! %s\n' % line
         
-    s += '\n# %s \n\n' % tsf_format
+    fscales = {'HZ': 1e0, 'KHZ':1e3,'MHZ':1e6, 'GHZ':1e9}
+    
+    # analyse the format: what is not specified gets a default value
+    items = tsf_format.upper().replace('#',' ').split()
+    funit, mtype, zref, fmts = 'GHZ', 'S', '50.0', []
+    while items:
+        item = items.pop(0)
+        if item in fscales:
+            funit = item
+        elif item in ['S', 'Y', 'Z']:
+            mtype = item
+        elif item in ['RI', 'MA', 'DB']:
+            fmts.append(item)
+        elif item == 'R' and items:
+            zref = items.pop(0)
+        else:
+            raise ValueError(
+                f'WriteTSF: unrecognized item {item!r} in format string'
+                )
     
-    fscale = {'HZ': 1e0, 'KHZ':1e3,'MHZ':1e6, 'GHZ':1e9, 'THZ':1e12}[
-        re.findall('^.*?([KMG]?HZ).*$',tsf_format.upper())[0]]
-
-    try:
-        zref = float(
-                re.findall(
-                    r'^.*?R\s*([-+]?(?:\d*[\.])?\d+(?:[eE][-+]?\d+)?).*?$',
-                    tsf_format
-                )[0]
-               )
-    except:
-        zref = 50.0
-        
-    fmt = re.findall('(RI|MA|DB)',tsf_format.upper())
-    if len(fmt) == 0:
-        fmt = 'DB'  # default
-    elif len(fmt) == 1:
-        fmt = fmt[0]
-    else:
+    if len(fmts) > 1:
         raise ValueError(
             'WriteTSF: one one of DB, RI or MA allowed in format string'
             )
+    fmt = fmts[0] if fmts else 'DB'
+    
+    # the reader has to know about all of these
+    s += '\n# %s %s %s R %s \n\n' % (funit, mtype, fmt, zref)
+    
+    fscale, zref = fscales[funit], float(zref)
         
     try:
         if len(object.ports) > 0 :
@@ -99,6 +107,10 @@ def WriteTSF(object, path2tsf=None,
     for k,fk in enumerate(fs):
         s += (f'%{num_format[0]}' % (fk / fscale)) + ' '
         d = object.getS(fk, Zbase=zref)
+        if mtype == 'Z':
+            d = Z_from_S(d, zref)
+        elif mtype == 'Y':
+            d = Y_from_S(d, zref)
         if nports == 2: # touchstone convention for 2-ports
             d = np.transpose(d)
         for kr in range(nports):
-- 
2.43.0


From cfbd316285193b6741c917e192c5574b31782d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:16 +0000
Subject: [PATCH 65/89] fix: WriteTSF took the frequencies of an rfObject to be
 in Hz

---
 src/pyRFtk/WriteTSF.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/WriteTSF.py b/src/pyRFtk/WriteTSF.py
index 2743d62..994444a 100644
--- a/src/pyRFtk/WriteTSF.py
+++ b/src/pyRFtk/WriteTSF.py
@@ -23,6 +23,7 @@ def WriteTSF(object, path2tsf=None,
     """WriteTSF:
     
         object     : a pyFtk object (rfCircuit, fObject, rfTRL, ...)
+        fs         : [Hz] frequencies (default: those of the object)
         path2tsf   : path to file: if it is None or an empty string the TSF is
                      returned as a string
         tsf_format : the touchstone version 1.1 string
@@ -80,12 +81,15 @@ def WriteTSF(object, path2tsf=None,
     except AttributeError:
         pass
     
+    # the frequency unit of the object (in Hz)
+    oscale = getattr(object, 'fscale', 1.)
+    
     if len(fs) == 0:
         
         # try an find a way to a list of meaning full frequencies
         try:
             if len(object.fs) > 0:
-                fs = object.fs
+                fs = np.array(object.fs) * oscale
         except AttributeError:
             pass
     
@@ -106,7 +110,7 @@ def WriteTSF(object, path2tsf=None,
     
     for k,fk in enumerate(fs):
         s += (f'%{num_format[0]}' % (fk / fscale)) + ' '
-        d = object.getS(fk, Zbase=zref)
+        d = object.getS(fk / oscale, Zbase=zref)
         if mtype == 'Z':
             d = Z_from_S(d, zref)
         elif mtype == 'Y':
-- 
2.43.0


From 7f4ce0b505e7b2e4e68259fea1cc85c42e661e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:16 +0000
Subject: [PATCH 66/89] fix: rfBase.tsf2str failed for Z and Y data

---
 src/pyRFtk/rfBase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index 76ae1f9..9f7d147 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -19,7 +19,8 @@ from .config import logident, logit, _newID
 from .whoami import whoami
 from .printMatrices import strM
 from .ConvertGeneral import ConvertGeneral
-from . import Z_from_S, Y_from_S
+from .Z_from_S import Z_from_S
+from .Y_from_S import Y_from_S
 from ._check_3D_shape_ import _check_3D_shape_
         
 #===============================================================================
-- 
2.43.0


From df4217b3a2102a16c2f3788e2a8bd57ef8eb623b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:16 +0000
Subject: [PATCH 67/89] fix: rfBase.tsf2str wrote other data than its header
 told when an item of the format was not given

---
 src/pyRFtk/rfBase.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index 9f7d147..abb8846 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -326,7 +326,7 @@ class rfBase():
             raise TypeError(f'{whoami(__package__)}: ' # @UndefinedVariable
                             f'Unknown kwargs {", ".join([kw for kw in kwargs])}') 
                     
-        elmfmt, mtype, Zref, fscale, funit = 'MA', 'S', 50.0, 1.0, 'MHZ'
+        elmfmt, mtype, Zref, funit = 'MA', 'S', Zbase, 'MHZ'
         fscales = {'HZ': 1, 'KHZ':1e3, 'MHZ':1e6, 'GHZ':1e9}
         elstrs = {
             'RI': lambda z: '  %11.8f %11.8f' % (z.real, z.imag),
@@ -335,9 +335,7 @@ class rfBase():
                                                  np.angle(z,deg=1)),
         }
         
-        fmts = tfmt.upper().split()
-        if fmts[0] == '#':
-            fmts = fmts[1:]
+        fmts = tfmt.upper().replace('#',' ').split()
             
         last = ''
         for k, tk in enumerate(fmts):
@@ -349,11 +347,9 @@ class rfBase():
             
             elif tk in fscales:
                 funit = tk
-                fscale = fscales[funit]
             
             elif tk in ['RI', 'MA', 'DB']:
                 elmfmt = tk
-                elstr = elstrs[elmfmt]
             
             elif tk in ['S', 'Y', 'Z']:
                 mtype = tk
@@ -363,6 +359,9 @@ class rfBase():
                                  f'unknown touchstone format directive {tk}')
             last = tk
             
+        fscale, elstr = fscales[funit], elstrs[elmfmt]
+        # the reader has to know about what was not specified too
+        tfmt = f'# {funit} {mtype} {elmfmt} R {Zref}'
 
         eoln = '\n'
         
-- 
2.43.0


From 6df9627e3aa1d0706e55ebe86daa77813fba54bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:16 +0000
Subject: [PATCH 68/89] fix: rfBase.tsf2str printed frequencies with too few
 digits

---
 src/pyRFtk/rfBase.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/pyRFtk/rfBase.py b/src/pyRFtk/rfBase.py
index abb8846..8d40efc 100644
--- a/src/pyRFtk/rfBase.py
+++ b/src/pyRFtk/rfBase.py
@@ -396,22 +396,13 @@ class rfBase():
         freq_fmt_len = 10
         
         if True:
-            # find the optimal frequency format that is able to represent the
-            # smallest frequency step as well as the maximun frequency
-            
-            if len(Fs) > 1:
-                for df in list(set(sorted(np.diff(Fs)))):
-                    if df > 0.:
-                        break
-            else:
-                df = Fs[0]
+            # find the optimal frequency format that is able to represent all
+            # the frequencies
             
             m0, dm = 15, 3
-            m = m0
-            df0 = round(df,m)
-            while m >= 0 and df0 == round(df,m):
-                m -= dm
-            m += dm
+            for m in range(0, m0+1, dm):
+                if np.all(np.abs(np.round(Fs,m) - Fs) <= 1e-13 * np.abs(Fs)):
+                    break
             freq_frac = '.%df' % m
             n = len(('%'+freq_frac) % np.max(Fs))
             freq_fmt = ('%%%d' % n) + freq_frac + ' '
-- 
2.43.0


From 7845c5633ee65fa146e3327fd1c917c125a9ddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:35 +0000
Subject: [PATCH 69/89] fix: rfGTL builds the arc blocks of its model file

---
 src/pyRFtk/rfGTL.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfGTL.py b/src/pyRFtk/rfGTL.py
index 36e5c34..394f81b 100644
--- a/src/pyRFtk/rfGTL.py
+++ b/src/pyRFtk/rfGTL.py
@@ -13,7 +13,8 @@ import warnings
 from copy import deepcopy
 
 
-from . import rfCircuit, rfTRL, rfRLC, rfObject, rfArcObj
+from . import rfCircuit, rfTRL, rfRLC, rfObject
+from .rfArcObj import rfArcObj
 from .whoami import whoami 
 from .config import logit, tLogger, ident, _newID, logident
 
@@ -186,10 +187,10 @@ class rfGTL(rfCircuit):
                 # rfRLC object                       
                 # obsolete -- xposlist[blk] = [xpos, xpos]
                 RFobj = rfRLC(Zbase=self.Zbase,**tkwargs)
-            elif len(kwargs) == 1 and 'Larc' in kwargs:
+            elif 'Larc' in tkwargs:
                 # rfArcObject
                 # obsolete -- xposlist[blk] = [xpos, xpos]
-                RFobj = rfArcObj(kwargs['Larc'])
+                RFobj = rfArcObj(Zbase=self.Zbase, **tkwargs)
             else:
                 # rfTRL object
                 # obsolete -- xposlist[blk] = [xpos, xpos + tkwargs['L']]
-- 
2.43.0


From 252149acd28610c82c3caaeccb8c28ac5362cb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:36 +0000
Subject: [PATCH 70/89] fix: rfGTL uses the value of a variable, not the text
 of its expression

---
 src/pyRFtk/rfGTL.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfGTL.py b/src/pyRFtk/rfGTL.py
index 394f81b..92ac598 100644
--- a/src/pyRFtk/rfGTL.py
+++ b/src/pyRFtk/rfGTL.py
@@ -90,13 +90,14 @@ class rfGTL(rfCircuit):
                 self.sNp.ports = self.Portnames
                 
         #----------------------------------------------------- resolve variables
+        # an expression is evaluated once the variables it uses have a value
         found = True # prime the while loop
         while found:
             found = {}
             for var, val in self.vars.items():
                 if isinstance(val, str):
                     try:
-                        found[var] = eval(val, globals(), self.vars)
+                        found[var] = self._eval_(val)
                     except (NameError, SyntaxError, TypeError):
                         pass # probably could not resolve yet
             if found:
@@ -111,7 +112,7 @@ class rfGTL(rfCircuit):
                 )
             else:
                 if isinstance(positions[p], str):
-                    positions[p] = eval(positions[p], globals(), self.vars)
+                    positions[p] = self._eval_(positions[p])
                 
         #
         portlist = {}
@@ -145,7 +146,7 @@ class rfGTL(rfCircuit):
             for kw, val in tkwargs.items(): #FIXME: 'ports' is a tkwarg and should not be considered
                 if isinstance(val, str):
                     try:
-                        tkwargs[kw] = eval(val, globals(), self.vars)
+                        tkwargs[kw] = self._eval_(val)
                     except ():
                         raise RuntimeError(
                             f'{whoami(__package__)}: could not eval substitution for "{kw}"'  # @UndefinedVariable
@@ -370,6 +371,19 @@ class rfGTL(rfCircuit):
         _debug_ and logident('<')
         return other
         
+    #===========================================================================
+    #
+    # _ e v a l _
+    #
+    def _eval_(self, expr):
+        """evaluate the string expr using the variables that have a value already
+        """
+        code = compile(expr.strip(), '<string>', 'eval')
+        for name in code.co_names:
+            if isinstance(self.vars.get(name), str):
+                raise NameError(f"name '{name}' is not resolved (yet)")
+        return eval(code, globals(), self.vars)
+
     #===========================================================================
     #
     # _ r e m a p _
-- 
2.43.0


From 3227b91eb66cb4c7e7bc73372321e76d4801e19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:36 +0000
Subject: [PATCH 71/89] fix: rfGTL evaluates the expressions of terminations

---
 src/pyRFtk/rfGTL.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfGTL.py b/src/pyRFtk/rfGTL.py
index 92ac598..e2671fb 100644
--- a/src/pyRFtk/rfGTL.py
+++ b/src/pyRFtk/rfGTL.py
@@ -127,7 +127,8 @@ class rfGTL(rfCircuit):
                 #------------------------------------ check for terminated ports
                 if isinstance(p, dict):
                     # terminate kwargs
-                    terminated = (p, '[**]')
+                    terminated = ({kw: self._eval_(val) if isinstance(val, str) else val
+                                   for kw, val in p.items()}, '[**]')
                     blkPortnames[kp] = '[**]'
                     continue
                 elif isinstance(p, str):
-- 
2.43.0


From 185ab1ec95f8b6aeb7fef16a860e2e918d11a434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:36 +0000
Subject: [PATCH 72/89] fix: rfGTL accepts the position of a block whose first
 port is terminated

---
 src/pyRFtk/rfGTL.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pyRFtk/rfGTL.py b/src/pyRFtk/rfGTL.py
index e2671fb..59f7576 100644
--- a/src/pyRFtk/rfGTL.py
+++ b/src/pyRFtk/rfGTL.py
@@ -178,10 +178,9 @@ class rfGTL(rfCircuit):
                                                   ('xpos', 'relpos', False)])
             
             if 'xpos' in tkwargs:
-                xpos = tkwargs.pop('xpos')
-                positions[f'{blkPortnames[0]}'] = xpos
+                xpos, known = tkwargs.pop('xpos'), True
             else:
-                xpos = -10
+                xpos, known = -10, False
                 
             plotkws = tkwargs.pop('plotkws',{}) # future feature
             
@@ -203,6 +202,13 @@ class rfGTL(rfCircuit):
                     pprint(tkwargs)
                     raise
                 
+            if known:
+                # the position of the block's first port that is not terminated
+                for p, xp in zip(blkPortnames, RFobj.xpos):
+                    if p not in ['[**]','[oc]','[sc]']:
+                        positions[p] = xpos + xp - RFobj.xpos[0]
+                        break
+                
             self.addblock(blk, RFobj, ports=blkPortnames, relpos=xpos)
             if terminated:
                 self.terminate(f'{blk}.{terminated[1]}', **terminated[0])
-- 
2.43.0


From ef7b99b6eddd25454b3febc77d24a6c387d317e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:36 +0000
Subject: [PATCH 73/89] fix: a copy of an rfGTL object does not need its model
 file

---
 src/pyRFtk/rfGTL.py | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/pyRFtk/rfGTL.py b/src/pyRFtk/rfGTL.py
index 59f7576..8c32cdd 100644
--- a/src/pyRFtk/rfGTL.py
+++ b/src/pyRFtk/rfGTL.py
@@ -361,22 +361,9 @@ class rfGTL(rfCircuit):
     def __copy__(self):
         return self.__deepcopy__()
     
-    def __deepcopy__(self, memo={}):
-        _debug_ = logit['DEBUG']
-        _debug_ and logident('>', printargs=True)
-        
-        # other = type(self)(self.path2model, self.objkey, self.variables, **self.kwargs) # because rfGTL object has a path2model
-        other = type(self)(*self.args, **self.kwargs) # because rfGTL object has a path2model
-        for attr, val in self.__dict__.items():
-            try:
-                _debug_ and logident(f'copy {attr}')
-                other.__dict__[attr] = deepcopy(val)
-            except:
-                print(f'{whoami(__package__)}: failed to deepcopy {attr}')  # @UndefinedVariable
-                raise
-        
-        _debug_ and logident('<')
-        return other
+    def __deepcopy__(self, memo=None):
+        # the model file is not read again: it may have changed since
+        return super().__deepcopy__(memo)
         
     #===========================================================================
     #
-- 
2.43.0


From d050a90b261c9265be56f9955b07a9870a8f045f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:57 +0000
Subject: [PATCH 74/89] fix: scaleVSW scales the entries of a voltage tree that
 are not lists

---
 src/pyRFtk/plotVSWs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/plotVSWs.py b/src/pyRFtk/plotVSWs.py
index 2f20e8a..5d92ed8 100644
--- a/src/pyRFtk/plotVSWs.py
+++ b/src/pyRFtk/plotVSWs.py
@@ -212,7 +212,10 @@ def scaleVSW(VSW, scale):
                 for k in range(len(val[1])):
                     val[1][k] *= scale
             else:
-                VSW[Id][1] *= scale
+                VSW[Id] = (val[0], val[1] * scale)
+        elif not hasattr(val, '__len__'):
+            # port voltage (no position)
+            VSW[Id] = val * scale
         else:
             raise ValueError('pyRFtk.CommonLib.plotVSWs.scaleVSW: internal error')
         
-- 
2.43.0


From a3d6cead747799c00453e5a3a71a26e1936d1874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:33 +0000
Subject: [PATCH 75/89] fix: rfCircuit.findObj of a path below an element
 raised AttributeError

---
 src/pyRFtk/rfCircuit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 440ac1e..2501259 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -280,9 +280,9 @@ class rfCircuit(rfBase):
                 blk, location = (location.split('.', 1) + [''])[:2] 
                 debug and logident(f'loc: {blk}, arc: {location}')
                 obj = obj.blocks[blk]['object']
-        except KeyError:
+        except (KeyError, AttributeError): # (an element has no blocks)
             if debug:
-                for s in obj.asstr(1).split('\n'):
+                for s in str(obj).split('\n'):
                     logident(s)
                 if hasattr(obj,'blocks'):
                     for itm in obj.blocks:
-- 
2.43.0


From ef3c0c6a6d6105948f17016eb9b79ecc27b8fb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:33 +0000
Subject: [PATCH 76/89] fix: strVSW shows positions with their sign and port
 voltages

---
 src/pyRFtk/plotVSWs.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/plotVSWs.py b/src/pyRFtk/plotVSWs.py
index 5d92ed8..d5a81d1 100644
--- a/src/pyRFtk/plotVSWs.py
+++ b/src/pyRFtk/plotVSWs.py
@@ -234,7 +234,7 @@ def strVSW(VSW, indent=0):
                 if len(val[0]) == len(val[1]):
                     for _, (x, y) in enumerate(zip(val[0], val[1]),1):
                         try:
-                            s += f'{" "*(indent+2)}{_:5d}:{np.abs(x):10.3f},{np.abs(y):10.3f}\n'
+                            s += f'{" "*(indent+2)}{_:5d}:{x:10.3f},{np.abs(y):10.3f}\n'
                         except:
                             if x is None:
                                 s += f'{" "*(indent+2)}{_:5d}:{" < None > ":10s},{np.abs(y):10.3f}\n'
@@ -243,9 +243,12 @@ def strVSW(VSW, indent=0):
                 else:
                     s += f'! unequal array/list lengths x:{len(val[0])} <> y:{len(val[0])}\n'
             elif not (hasattr(val[0],'__iter__') or hasattr(val[1],'__iter__')):
-                s += f'{" "*(indent+2)}{"node":5s}:{np.abs(val[0]):10.3f},{np.abs(val[1]):10.3f}\n'
+                s += f'{" "*(indent+2)}{"node":5s}:{val[0]:10.3f},{np.abs(val[1]):10.3f}\n'
             else:
                 s += f'! tuple error ...\n'
+        elif not hasattr(val, '__len__'):
+            # port voltage (no position)
+            s += f'{" "*(indent+2)}{"port":5s}:{" < None > ":10s},{np.abs(val):10.3f}\n'
         else:
             s += f'! unexpected value type {type(val)} expected tuple\n'
     return s
-- 
2.43.0


From 34eee8415f0b75fcfc9d161c668548319d226190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:33 +0000
Subject: [PATCH 77/89] fix: str_dict starts afresh at every call

---
 src/pyRFtk/str_dict.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyRFtk/str_dict.py b/src/pyRFtk/str_dict.py
index 4186b6c..5121893 100644
--- a/src/pyRFtk/str_dict.py
+++ b/src/pyRFtk/str_dict.py
@@ -6,6 +6,8 @@ def str_dict(adict):
         str_dict.N
     except AttributeError:
         str_dict.N = 0
+    
+    if str_dict.N == 0:
         str_dict.s = ''
     
     if isinstance(adict, dict):
-- 
2.43.0


From 56c2a230b7313e20e0b0f058fe67dc888200e8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:16 +0000
Subject: [PATCH 78/89] fix: TL sections at zero frequency

---
 src/pyRFtk/rfTRL.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pyRFtk/rfTRL.py b/src/pyRFtk/rfTRL.py
index 232a61d..d1d82ef 100644
--- a/src/pyRFtk/rfTRL.py
+++ b/src/pyRFtk/rfTRL.py
@@ -440,7 +440,9 @@ class rfTRL():
 
                     xs = [0.]
                     while xs[-1] < self.L:
-                        xs.append(xs[-1] + wavlen(w,xs[-1])/self.dx)
+                        # (a wavelength without end at f = 0)
+                        step = wavlen(w,xs[-1])/self.dx
+                        xs.append(xs[-1] + (step if step < np.inf else self.L))
                     
                     # may have overshot the end point so we rescale everything
                     xs = np.array(xs)
@@ -477,14 +479,16 @@ class rfTRL():
                 # so one does not have to solve the differential eqn
                 
                 gm = (self.rjwL(w,0) * self.gjwC(w,0)) ** 0.5
-                Zc = self.rjwL(w,0) / gm
                 
                 egmx = np.exp(gm * xs)
                 egmx1 = 1/egmx
                 
+                # sinh(gm x) / gm (x when there is no propagation, e.g. f = 0)
+                shx = 0.5 * (egmx - egmx1) / gm if gm else xs
+                
                 U10 = 0.5 * (egmx + egmx1)
-                I10 = 0.5 * (egmx - egmx1) / Zc
-                U01 = Zc **2 * I10
+                I10 = self.gjwC(w,0) * shx
+                U01 = self.rjwL(w,0) * shx
                 I01 = U10
                 
             else:
-- 
2.43.0


From efa775bf05e942f5ca873653ca49eb75e6a8a997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:16 +0000
Subject: [PATCH 79/89] fix: rfCircuit.set honours every request for the same
 object

---
 src/pyRFtk/rfCircuit.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 2501259..74fa3ba 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1188,7 +1188,9 @@ class rfCircuit(rfBase):
         
         modified = False
 
-        # unpack args and add them to kwargs
+        # unpack args into (key, value) pairs followed by the kwargs (the same 
+        # object may appear several times)
+        pairs = []
         if args:
             
             debug and logident('if args -> True')
@@ -1200,14 +1202,14 @@ class rfCircuit(rfBase):
                 debug and logident(f'  ak = {ak}')
                 
                 if isinstance(ak, tuple) and len(ak) == 2:
-                    kwargs = dict([ak], **kwargs)
+                    pairs.append(ak)
                     
                 elif isinstance(ak, dict):
-                    kwargs = dict(ak, **kwargs)
+                    pairs += ak.items()
                     
                 elif isinstance(ak,str) and len(largs)>0:
                     vk = largs.pop(0)
-                    kwargs = dict([(ak,vk)], **kwargs)
+                    pairs.append((ak,vk))
                 
                 else:
                     raise ValueError(
@@ -1217,16 +1219,16 @@ class rfCircuit(rfBase):
                     )
                     
             
-            debug and logident(f'-> kwargs = {kwargs}')
-            
+            debug and logident(f'-> pairs = {pairs}')
+        
+        pairs += kwargs.items()
+        
         # progess the kwargs
         debug and logident('starting kwargs loop ...')
 
-        processed = []
-        for kw, val in kwargs.items():
+        for kw, val in pairs:
             
             debug and logident(f'  processing kw={kw},val={val}')  
-            processed.append(kw)
             
             if not isinstance(val, dict):
                 # need to check if type val makes sense: expect int, float or complex
@@ -1272,13 +1274,6 @@ class rfCircuit(rfBase):
             self.f = None
             self.S = None
             
-        # removes the processed kwargs 
-        for kw in processed:
-            kwargs.pop(kw)
-               
-        if kwargs:
-            print(f'{whoami(__package__)}: {self.Id} : unused kwargs:\n{kwargs}')
-        
         debug and logident(f'<')
         
         return modified
-- 
2.43.0


From 61a3b3c574d0a10097cd06af3881f5fbff5b673e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:16 +0000
Subject: [PATCH 80/89] fix: iterating or indexing an rfObject hands out copies

---
 src/pyRFtk/rfObject.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index f294bf3..a6307c0 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -333,14 +333,14 @@ class rfObject():
     #
     def __iter__(self):
         for k in range(len(self.fs)):
-            yield self.fs[k], self.Ss[k,:,:]
+            yield self.fs[k], self.Ss[k,:,:].copy()
     
     #===========================================================================
     #
     #  _ _ g e t i t e m _ _
     #
     def __getitem__(self, k):
-        return self.fs[k], self.Ss[k,:,:]
+        return self.fs[k], self.Ss[k,:,:].copy() # the table stays ours
     
     #===========================================================================
     #
-- 
2.43.0


From 2d1f028bb4897406ff7728bfc228171859d414db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:16 +0000
Subject: [PATCH 81/89] fix: comparing rfObjects does not raise ValueError

---
 src/pyRFtk/rfObject.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index a6307c0..3db79b6 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -383,22 +383,44 @@ class rfObject():
     #
     def __eq__(self, other, verbose=False):
         
+        if not isinstance(other, rfObject):
+            return NotImplemented
+        
+        # what was left by the previous evaluations does not matter
+        skip = ['f', 'S', 'interpOK', 'interpM', 'interpA', 'sorted']
+        
+        self._sort_fs_()
+        other._sort_fs_()
+        
         diflist = []
-        otherval = [val for val in other.__dict__]
+        otherval = [val for val in other.__dict__ if val not in skip]
         for val in self.__dict__:
+            if val in skip:
+                continue
+            
             if val not in otherval:
                 diflist.append((val,'<'))
             
             else:
                 otherval.pop(otherval.index(val))
                 
+                a, b = self.__dict__[val], other.__dict__[val]
+                
                 if val in ['fs', 'Ss']:
                     if not (len(self.fs) == len(other.fs)
-                        and np.allclose(self.__dict__[val], other.__dict__[val])):
+                        and np.shape(a) == np.shape(b) and np.allclose(a, b)):
                         diflist.append((val,'!='))
-                        
+                
+                elif isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
+                    if not np.array_equal(a, b, equal_nan=True):
+                        diflist.append((val,'!='))
+                
                 else:
-                    if self.__dict__[val] != other.__dict__[val]:
+                    try:
+                        equal = bool(a == b)
+                    except ValueError: # there are arrays in it
+                        equal = repr(a) == repr(b)
+                    if not equal:
                         diflist.append((val,'!='))
                         
         if otherval:
-- 
2.43.0


From cd2200fc239b8f2636e606b552756e956751c613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:16 +0000
Subject: [PATCH 82/89] fix: a circuit can be extended after it was solved

---
 src/pyRFtk/rfCircuit.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 74fa3ba..207b415 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -318,6 +318,32 @@ class rfCircuit(rfBase):
         
         return obj
     
+    #===========================================================================
+    #
+    # _ r e o p e n
+    #
+    def _reopen(self):
+        """removes the equations of the external ports (which were added when the
+        circuit was solved) because the circuit is going to be extended
+        """
+        
+        rows = list(self.E.values())
+        if not rows:
+            return
+        
+        moved = lambda row: row - sum(r < row for r in rows)
+        
+        self.M = np.delete(self.M, rows, axis=0)
+        self.eqns = [eqn for k, eqn in enumerate(self.eqns) if k not in rows]
+        self.T = dict([(p, (idxA, idxB, moved(row))) 
+                       for p, (idxA, idxB, row) in self.T.items()])
+        for blk in self.blocks.values():
+            row, col = blk['loc']
+            blk['loc'] = moved(row), col
+        
+        self.E, self.idxEs = {}, []
+        self.invM, self.S = None, None
+        
     #===========================================================================
     #
     # _ s u b s t p o r t s
@@ -467,6 +493,8 @@ class rfCircuit(rfBase):
                     )
                 ports.remove(p)
             
+        self._reopen()
+        
         # add the columns for the internal ports
         
         self.M = np.hstack((
@@ -694,6 +722,8 @@ class rfCircuit(rfBase):
         # else:
         #     xpos += np.zeros(len(oports))
             
+        self._reopen()
+        
         self.blocks[name] = {
             'params' : dict(params),
             'ports'  : oports,
@@ -828,6 +858,8 @@ class rfCircuit(rfBase):
                     f'{whoami(__package__)}: port {p} already in use'  
                 )
         
+        self._reopen()
+        
         for p in newports:
             self.waves.append('->'+p)
             self.waves.append('<-'+p) 
-- 
2.43.0


From 593f62249175a02643df34b6914adfc35bbf46be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:16 +0000
Subject: [PATCH 83/89] fix: replacing a block replaces its parameters

---
 src/pyRFtk/rfCircuit.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 207b415..c60e9a2 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -638,8 +638,6 @@ class rfCircuit(rfBase):
             
             subblockobj.addblock(subblock, RFobj, ports=ports, params=params, **kwargs)
             self.blocks[name]['object'] = subblockobj
-            if '.' not in subblock:
-                self.blocks[name]['params'] = dict(params)
                 
             _debug_ and logident(
                 f'< [circuit.addblock] (replaced at a deeper level)', -1
@@ -655,6 +653,7 @@ class rfCircuit(rfBase):
             #TODO: maybe some other checks are in order / necessary
             
             self.blocks[name]['object'] = RFobj
+            self.blocks[name]['params'] = dict(params)
             
             _debug_ and tLogger.debug(ident(
                 f'< [circuit.addblock] (replaced at this level)', -1
-- 
2.43.0


From c7095adb04d9e2badc59ba3068b8e205229ba700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:59 +0000
Subject: [PATCH 84/89] fix: a line evaluated at zero frequency can be printed

---
 src/pyRFtk/resolveTLparams.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/resolveTLparams.py b/src/pyRFtk/resolveTLparams.py
index d08a169..ea847db 100644
--- a/src/pyRFtk/resolveTLparams.py
+++ b/src/pyRFtk/resolveTLparams.py
@@ -418,7 +418,11 @@ class TLresolver():
                 s += f'{kw:<10s} = f{"("+",".join(tsig)+")":7}{missing} '
                 if full:
                     s += f'{self.kwset[kw]["source"]:<{l1}s}'
-                s += f' = {getattr(self,kw)(2*np.pi*f0,0)} \n'
+                try:
+                    val = getattr(self,kw)(2*np.pi*f0,0)
+                except ZeroDivisionError: # at f0 = 0
+                    val = 'not defined'
+                s += f' = {val} \n'
         return s
     
     #===========================================================================
-- 
2.43.0


From f1b0c85321bb26d1c14b6629de5d117a2ad05738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:59 +0000
Subject: [PATCH 85/89] fix: the last evaluation of a printed rfObject is
 labelled in its own unit

---
 src/pyRFtk/rfObject.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfObject.py b/src/pyRFtk/rfObject.py
index 3db79b6..8ad9797 100644
--- a/src/pyRFtk/rfObject.py
+++ b/src/pyRFtk/rfObject.py
@@ -314,7 +314,7 @@ class rfObject():
         s += '# %d frequencies\n' % len(self.fs)
         
         if self.S is not None:
-            s += f'|\n+ last evaluation at {self.f:_.1f} Hz: \n'
+            s += f'|\n+ last evaluation at {self.f * self.fscale:_.1f} Hz: \n'
             for sk in str(self.S).split('\n'): 
                 s += '|   ' + sk + '\n'
                 
-- 
2.43.0


From 5d1e39e60cae12902299cc4ffbfe33eaa04f4051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:59 +0000
Subject: [PATCH 86/89] fix: a circuit with a plain S-matrix block can be
 printed in full

---
 src/pyRFtk/rfCircuit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index c60e9a2..27a59fe 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -197,7 +197,8 @@ class rfCircuit(rfBase):
                         s +=  f'|   {blkID}: \n'
                         #fixme: embellish this type of block
                         mx = max([len(_p) for _p in blk['ports']])
-                        for _p, _x in zip(blk['ports'], blk['xpos']):
+                        _x = blk['xpos']
+                        for _p in blk['ports']:
                             s += f'|   |   {_p:{mx+1}s} @ {_x:7.4f}m\n'
                         s += f'|   |\n'
 
-- 
2.43.0


From b63d90e32c869a5d3d232c5eb5219473b78a8ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:59 +0000
Subject: [PATCH 87/89] fix: an empty log message does not raise IndexError

---
 src/pyRFtk/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyRFtk/config.py b/src/pyRFtk/config.py
index d9cf782..265a179 100644
--- a/src/pyRFtk/config.py
+++ b/src/pyRFtk/config.py
@@ -135,7 +135,7 @@ def logident(message, printargs=False, stacklev=2):
     curframe = inspect.currentframe()
     calframe = inspect.getouterframes(curframe, stacklev)
 
-    if message[0] == '>':
+    if message[:1] == '>':
         msg = ident(
             f'> '+calframe[stacklev-1][3]+' '+(message[1:].lstrip().split() + [''])[0], +1)
         logident.stack.append(calframe[stacklev-1][3])
@@ -166,7 +166,7 @@ def logident(message, printargs=False, stacklev=2):
                 for kw in values[kwargs]:
                     flog(ident(f'    {kw} : {strval(values[kwargs][kw])}'), stacklevel=stacklev)
             
-    elif message[0] == '<':
+    elif message[:1] == '<':
         clr = '< '+ (logident.stack.pop() if len(logident.stack) else '**stack err**')
         msg = ident(clr, -1)
         flog(msg, stacklevel=stacklev)
-- 
2.43.0


From 653bc0b0b5070b2a4d439bca30ec7fd423138583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:59 +0000
Subject: [PATCH 88/89] fix: log levels between the named ones do not raise
 KeyError

---
 src/pyRFtk/config.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/config.py b/src/pyRFtk/config.py
index 265a179..d11695c 100644
--- a/src/pyRFtk/config.py
+++ b/src/pyRFtk/config.py
@@ -123,6 +123,11 @@ def logident(message, printargs=False, stacklev=2):
         s = s.split('\n')
         return s[0] if len(s) < 2 else s[0]+' ...'
             
+    # the nearest named level (setLogLevel also accepts the numbers in between)
+    level = tLogger.getEffectiveLevel()
+    level = min([lvl for lvl in logging._levelToName if lvl >= level],
+                default=logging.CRITICAL)
+    
     flog = {
         'NOTSET'    : notset,
         'DEBUG'    : tLogger.debug,
@@ -130,7 +135,7 @@ def logident(message, printargs=False, stacklev=2):
         'WARNING'  : tLogger.warning,
         'ERROR'    : tLogger.error,
         'CRITICAL' : tLogger.critical
-    }[logging._levelToName[tLogger.getEffectiveLevel()]]
+    }[logging._levelToName[level]]
         
     curframe = inspect.currentframe()
     calframe = inspect.getouterframes(curframe, stacklev)
-- 
2.43.0


From acc7b65658de4f76060b3b200e72805835020ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:59 +0000
Subject: [PATCH 89/89] fix: rfCircuit.set is honoured as a whole or not at all

---
 src/pyRFtk/rfCircuit.py | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/pyRFtk/rfCircuit.py b/src/pyRFtk/rfCircuit.py
index 27a59fe..f278ab0 100644
--- a/src/pyRFtk/rfCircuit.py
+++ b/src/pyRFtk/rfCircuit.py
@@ -1258,6 +1258,29 @@ class rfCircuit(rfBase):
         # progess the kwargs
         debug and logident('starting kwargs loop ...')
 
+        # the request is honoured as a whole or not at all: keep the values that were 
+        # replaced in case a later part of the request is refused
+        done = []
+        
+        def present(obj, kw, val):
+            """[(object, {attribute: value}), ...] of what kw: val replaces"""
+            for blk in kw.split('.'):
+                obj = obj.blocks[blk]['object']
+            if not hasattr(obj, 'blocks'):
+                return [(obj, {attr: getattr(obj, attr) 
+                               for attr in val if hasattr(obj, attr)})]
+            olds = []
+            for k, v in val.items():
+                if not isinstance(v, dict):
+                    k, _, attr = k.rpartition('.')
+                    v = {attr: v}
+                olds += present(obj, k, v)
+            return olds
+        
+        def undo():
+            for target, old in reversed(done):
+                target.set(**old)
+        
         for kw, val in pairs:
             
             debug and logident(f'  processing kw={kw},val={val}')  
@@ -1270,6 +1293,7 @@ class rfCircuit(rfBase):
                 try:
                     kw, attr = kw.rsplit('.',1)
                 except:
+                    undo()
                     raise ValueError(
                         f'{whoami(__package__)}: {self.Id} '
                         f'as the value supplied is not a dict the object locator'
@@ -1280,9 +1304,11 @@ class rfCircuit(rfBase):
                  
             # kw now points to an object
             block, rest = (kw.split('.',1) + [''])[:2]
-            obj = self.blocks[block]['object']
             # recursively call the block's set method
             try:
+                obj = self.blocks[block]['object']
+                old = present(self, kw, val)
+                
                 if rest:
                     # block is a rfCircuit itself
                     modified |= obj.set(rest, val)
@@ -1292,13 +1318,16 @@ class rfCircuit(rfBase):
                     modified |= obj.set(**val)
                     
             except AttributeError:
+                undo()
                 raise ValueError(
                     f'{whoami(__package__)}: {obj.Id} has no \'set\' attribute'
                 )
             
             except:
+                undo()
                 raise
             
+            done += old
             debug and logident(f'{obj.Id} <- {val}')
                        
         if modified:
-- 
2.43.0

