From 7ecfcd767970c4f0ac299ba2c29e431a5d941d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:12 +0000
Subject: [PATCH 01/92] fix: CSVFile separator detection swallowed I/O errors
 and returned different data

---
 weio/csv_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index 5e8197c..0ef2485 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -167,7 +167,7 @@ class CSVFile(File):
                     self.sep='\t'
                 else:
                     self.sep=r'\s+'
-            except:
+            except StopIteration:
                 # most likely an empty file
                 pass
 
-- 
2.43.0


From 86f90967b45d26e47d29ebbac4fad21373d10e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:12 +0000
Subject: [PATCH 02/92] fix: BladedFile returned NaN data when a 3D ascii file
 could not be read

---
 weio/bladed_out_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index 1315fb2..8cc2aea 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -213,8 +213,8 @@ def read_bladed_output(sensorFilename, readTimeFilesOnly=False):
                 # Data is stored as sections, time, signal, we reshape to signal, section, time
                 data = np.loadtxt(dataFilename).reshape((nMajor, nSections, nSensors),order='C')
             except:
-                data = np.empty((nMajor, nSections, nSensors)) * np.nan
                 print('>>> Failed to read 3d ascii file: {}'.format(dataFilename))
+                raise
 
     return OrgData(data, **sensorInfo)
 
-- 
2.43.0


From 1b14fe3a61b52a57280f686ec264dc185ac2358c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:40 +0000
Subject: [PATCH 03/92] fix: TecplotFile.read reported I/O errors as wrong
 format and could not re-read its file

---
 weio/tecplot_file.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index 1c9aa2d..802d616 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -85,7 +85,7 @@ def _process_merged_line(line, section, dict_out):
         print('Processing section {}:'.format(section),line)
         dict_out[section]=line
 
-def read_tecplot(filename, dict_out={}):
+def read_tecplot(filename, dict_out=None):
     """ Reads a tecplot file
     Limited support:
        - title optional
@@ -94,6 +94,7 @@ def read_tecplot(filename, dict_out={}):
     For now, assumes that only one section of numerical data is present
     """
 
+    dict_out = {} if dict_out is None else dict_out
     merged_line=''
     current_section=''
     variables=[]
@@ -173,14 +174,17 @@ class TecplotFile(File):
         if os.stat(self.filename).st_size == 0:
             raise EmptyFileError('File is empty:',self.filename)
 
+        self.clear() # no leftovers from a previous read
         try:
-            read_tecplot(filename,self)
+            read_tecplot(self.filename,self)
         except BrokenFormatError:
             raise 
         except WrongFormatError:
             raise 
+        except (OSError, MemoryError):
+            raise # not related to the content of the file
         except Exception as e:    
-            raise WrongFormatError('Tecplot dat File {}: '.format(self.filename)+e.args[0])
+            raise WrongFormatError('Tecplot dat File {}: {}'.format(self.filename, e.args))
 
     def write(self, filename=None, precision=None):
         """ Write tecplot ascii file """
-- 
2.43.0


From 0ec75e4a1d0eb6c70111eb7d4f5195c49842651f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:55 +0000
Subject: [PATCH 04/92] fix: TecplotFile.write produced files that could not be
 read back (title, zone, wide and single-row tables)

---
 weio/tecplot_file.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index 802d616..92e2913 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -45,7 +45,7 @@ def _process_merged_line(line, section, dict_out):
     n = len(section)
     line = line[n:].strip()
     if section=='title':
-        dict_out[section]=line
+        dict_out[section]=line.lstrip('=').strip()
     elif section=='variables':
         line = line.replace('=','').strip()
         line = line.replace(',',' ').strip()
@@ -135,7 +135,7 @@ def read_tecplot(filename, dict_out=None):
                         _process_merged_line(merged_line, current_section, dict_out)
                     # --- Special case of numerical values outside of zone
                     f.close()
-                    M = np.loadtxt(filename, skiprows = iline-1)
+                    M = np.loadtxt(filename, skiprows = iline-1, ndmin=2)
                     if M.shape[1]!=len(dict_out['variables']):
                         raise BrokenFormatError('Number of columns of data does not match number of variables')
                     dict_out['data']=M
@@ -199,11 +199,15 @@ class TecplotFile(File):
             f.write('VARIABLES = ' + ','.join(['"{}"'.format(col) for col in self['variables'] ]) + '\n')
             for k in Keywords[2:]:
                 if k in self.keys():
-                    f.write('{} = {}\n'.format(k,self[k]))
+                    if isinstance(self[k], dict):
+                        for key, val in self[k].items():
+                            f.write('{} {}="{}"\n'.format(k,key,val))
+                    else:
+                        f.write('{} = {}\n'.format(k,self[k]))
             # Data
             if 'data' in self.keys():
                 for row in self['data']:
-                    srow = np.array2string(row, edgeitems=0, separator=' ', precision=precision)
+                    srow = np.array2string(row, separator=' ', precision=precision, max_line_width=np.inf, threshold=len(row)+1)
                     f.write(srow[1:-1]+'\n')
 
 
-- 
2.43.0


From e55bf551ac1d47022a30ab8aa445066ac9745b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:46 +0000
Subject: [PATCH 05/92] fix: readers reported I/O errors, memory errors and
 interrupts as a wrong file format

---
 weio/fast_output_file.py  | 6 ++++--
 weio/flex_blade_file.py   | 6 +++---
 weio/flex_profile_file.py | 2 +-
 weio/flex_wavekin_file.py | 4 +++-
 weio/hawc2_ae_file.py     | 4 +++-
 weio/hawc2_dat_file.py    | 6 +++---
 weio/hawc2_pc_file.py     | 4 +++-
 7 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 94ee22c..2389fd2 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -92,6 +92,8 @@ class FASTOutputFile(File):
                 self.info['attribute_names']=self.data.columns.values
             else:
                 self.data, self.info = load_output(self.filename)
+        except OSError:
+            raise # not related to the content of the file
         except MemoryError as e:    
             raise BrokenReaderError('FAST Out File {}: Memory error encountered\n{}'.format(self.filename,e))
         except Exception as e:    
@@ -241,8 +243,8 @@ def load_binary_output(filename, use_buffer=True):
                 data[ nLinesRead:(nLinesRead+nLinesToRead),  nOff:(nOff+nCols)  ] = Buffer
                 nLinesRead = nLinesRead + nLinesToRead
                 nIntRead   = nIntRead   + nIntToRead
-        except:
-            raise Exception('Read only %d of %d values in file:' % (nIntRead, n, filename))
+        except (struct.error, ValueError):
+            raise Exception('Read only %d of %d values in file: %s' % (nIntRead, n, filename))
         return data
 
 
diff --git a/weio/flex_blade_file.py b/weio/flex_blade_file.py
index 4442ffa..b29ca94 100644
--- a/weio/flex_blade_file.py
+++ b/weio/flex_blade_file.py
@@ -30,7 +30,7 @@ class FLEXBladeFile(File):
             try:
                 firstline  = f.readline().strip()
                 nSections = int(f.readline().strip().split()[0])
-            except:
+            except (ValueError, IndexError):
                 raise WrongFormatError('Unable to read first two lines of blade file')
             try:
                 self.version=int(firstline[1:4])
@@ -79,7 +79,7 @@ class FLEXBladeFile(File):
                     #    struct_headers=struct_headers[0:-1]
                     #    struct =struct[:,:-1]
                     #    struct[iSec,:]=np.array(vals[0:nColsStruct]).astype(float)
-            except:
+            except (ValueError, IndexError):
                 raise WrongFormatError('Unable to read structural data')
             try:
                 self.BetaC  = float(f.readline().strip().split()[0])
@@ -104,7 +104,7 @@ class FLEXBladeFile(File):
                 for iSec in range(nSections):
                     vals=f.readline().split()[0:nColsAero]
                     aero[iSec,:]=np.array(vals).astype(float)
-            except:
+            except (ValueError, IndexError):
                 raise WrongFormatError('Unable to read aerodynamic data')
 
             self.ProfileFile=f.readline().strip()
diff --git a/weio/flex_profile_file.py b/weio/flex_profile_file.py
index 9a29f17..032b747 100644
--- a/weio/flex_profile_file.py
+++ b/weio/flex_profile_file.py
@@ -99,7 +99,7 @@ class FLEXProfileFile(File):
                     try:
                         for ia in range(nAlpha):
                             polars[it][ia,:]=np.array([f.readline().split()]).astype(float)
-                    except:
+                    except (ValueError, IndexError):
                         raise BrokenFormatError('An error occured while reading set number {}, polar number {}, (thickness {}), value number {}.'.format(setNumber,it+1,t,ia+1))
 
                 return polars,polar_headers
diff --git a/weio/flex_wavekin_file.py b/weio/flex_wavekin_file.py
index 684e8f8..07ca686 100644
--- a/weio/flex_wavekin_file.py
+++ b/weio/flex_wavekin_file.py
@@ -34,7 +34,9 @@ class FLEXWaveKinFile(File):
 
         try:
             csv = CSVFile(self.filename, sep=' ', commentLines=list(np.arange(11)),detectColumnNames=False)
-        except:
+        except (OSError, MemoryError):
+            raise # not related to the content of the file
+        except Exception:
             raise WrongFormatError('Unable to parse Flex WaveKin file as CSV with 11 header lines')
 
         header = csv.header 
diff --git a/weio/hawc2_ae_file.py b/weio/hawc2_ae_file.py
index 950fe6a..153a330 100644
--- a/weio/hawc2_ae_file.py
+++ b/weio/hawc2_ae_file.py
@@ -43,8 +43,10 @@ class HAWC2AEFile(File):
         # ---
         try:
             self.data = AEFile(self.filename)
+        except (OSError, MemoryError):
+            raise # not related to the content of the file
         except Exception as e:    
-            raise WrongFormatError('AE File {}: '.format(self.filename)+e.args[0])
+            raise WrongFormatError('AE File {}: {}'.format(self.filename, e.args))
 
     def write(self, filename=None):
         if filename:
diff --git a/weio/hawc2_dat_file.py b/weio/hawc2_dat_file.py
index 3a3bab4..afea6b7 100644
--- a/weio/hawc2_dat_file.py
+++ b/weio/hawc2_dat_file.py
@@ -43,12 +43,12 @@ class HAWC2DatFile(File):
             self.info['attribute_descr'] = res_file.ChInfo[2]
             if res_file.FileFormat=='BHAWC_ASCII':
                 self.bHawc=True
-        except FileNotFoundError:
-            raise
+        except (OSError, MemoryError):
+            raise # not related to the content of the file
             #raise WrongFormatError('HAWC2 dat File {}:  '.format(self.filename)+' File Not Found:'+e.filename)
         except Exception as e:    
 #             raise e
-            raise WrongFormatError('HAWC2 dat File {}: '.format(self.filename)+e.args[0])
+            raise WrongFormatError('HAWC2 dat File {}: {}'.format(self.filename, e.args))
 
     #def _write(self):
         #self.data.to_csv(self.filename,sep=self.false,index=False)
diff --git a/weio/hawc2_pc_file.py b/weio/hawc2_pc_file.py
index 74e69bd..b088be0 100644
--- a/weio/hawc2_pc_file.py
+++ b/weio/hawc2_pc_file.py
@@ -44,8 +44,10 @@ class HAWC2PCFile(File):
         # ---
         try:
             self.data = PCFile(self.filename)
+        except (OSError, MemoryError):
+            raise # not related to the content of the file
         except Exception as e:    
-            raise WrongFormatError('PC File {}: '.format(self.filename)+e.args[0])
+            raise WrongFormatError('PC File {}: {}'.format(self.filename, e.args))
 
     def write(self, filename=None):
         if filename:
-- 
2.43.0


From ef27adba1d9bfb807ad83dfe537839489fea6d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:57 +0000
Subject: [PATCH 06/92] fix: HAWCStab2 pwr/ind readers raised NameError instead
 of a format error, and failed on one-row files

---
 weio/hawcstab2_ind_file.py | 12 ++++++------
 weio/hawcstab2_pwr_file.py | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/weio/hawcstab2_ind_file.py b/weio/hawcstab2_ind_file.py
index 3d41940..0646d11 100644
--- a/weio/hawcstab2_ind_file.py
+++ b/weio/hawcstab2_ind_file.py
@@ -12,7 +12,7 @@ standard_library.install_aliases()
 import os
 import re
 
-from .file import File, WrongFormatError
+from .file import File, WrongFormatError, BrokenFormatError
 import numpy as np
 import pandas as pd
 
@@ -32,7 +32,7 @@ class HAWCStab2IndFile(File):
         with open(self.filename,'r',encoding=self.encoding) as f:
             header = f.readline().strip()
         if len(header)<=0 or header[0]!='#':
-            raise WrongFormatError('Ind File {}: header line does not start with `#`.'.format(self.filename)+e.args[0])
+            raise WrongFormatError('Ind File {}: header line does not start with `#`.'.format(self.filename))
         # Extracting column names
         header       = '00'+header[1:].strip()
         num_and_cols = [s.strip()+']' for s in header.split(']')[:-1]]
@@ -48,12 +48,12 @@ class HAWCStab2IndFile(File):
 
         # Reading numerical data
         try:
-            self.data = np.loadtxt(self.filename, skiprows=1)
-        except Exception as e:    
-            raise BrokenFormatError('Ind File {}: '.format(self.filename)+e.args[0])
+            self.data = np.loadtxt(self.filename, skiprows=1, ndmin=2)
+        except ValueError as e:    
+            raise BrokenFormatError('Ind File {}: {}'.format(self.filename, e.args))
 
         if self.data.shape[1]!=len(cols):
-            raise BrokenFormatError('Ind File {}: inconsistent number of header columns and data columns.'.format(self.filename)+e.args[0])
+            raise BrokenFormatError('Ind File {}: inconsistent number of header columns and data columns.'.format(self.filename))
 
         # Extracting wind speed from filename 
         self.wsp = float(self.filename.lower().split('_')[-1].rstrip('.ind').lstrip('u'))/1000
diff --git a/weio/hawcstab2_pwr_file.py b/weio/hawcstab2_pwr_file.py
index add7a22..cdbd1d0 100644
--- a/weio/hawcstab2_pwr_file.py
+++ b/weio/hawcstab2_pwr_file.py
@@ -10,7 +10,7 @@ from builtins import str
 from future import standard_library
 standard_library.install_aliases()
 
-from .file import File, WrongFormatError
+from .file import File, WrongFormatError, BrokenFormatError
 import numpy as np
 import pandas as pd
 
@@ -30,7 +30,7 @@ class HAWCStab2PwrFile(File):
         with open(self.filename,'r',encoding=self.encoding) as f:
             header = f.readline().strip()
         if len(header)<=0 or header[0]!='#':
-            raise WrongFormatError('Pwr File {}: header line does not start with `#`'.format(self.filename)+e.args[0])
+            raise WrongFormatError('Pwr File {}: header line does not start with `#`'.format(self.filename))
         # Extracting column names
         header       = '0 '+header[1:].strip()
         num_and_cols = [s.strip()+']' for s in header.split(']')[:-1]]
@@ -41,12 +41,12 @@ class HAWCStab2PwrFile(File):
         self.colNames=cols
         # Reading numerical data
         try:
-            self.data = np.loadtxt(self.filename, skiprows=1)
-        except Exception as e:    
-            raise BrokenFormatError('Pwr File {}: '.format(self.filename)+e.args[0])
+            self.data = np.loadtxt(self.filename, skiprows=1, ndmin=2)
+        except ValueError as e:    
+            raise BrokenFormatError('Pwr File {}: {}'.format(self.filename, e.args))
 
         if self.data.shape[1]!=len(cols):
-            raise BrokenFormatError('Pwr File {}: inconsistent number of header columns and data columns.'.format(self.filename)+e.args[0])
+            raise BrokenFormatError('Pwr File {}: inconsistent number of header columns and data columns.'.format(self.filename))
 
     #def _write(self):
         #self.data.to_csv(self.filename,sep=self.false,index=False)
-- 
2.43.0


From 5870568258ec1f749442915459c3cf32ba19e783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:57 +0000
Subject: [PATCH 07/92] fix: readers raised NameError instead of EmptyFileError
 for an empty file

---
 weio/_NEWFILE_TEMPLATE.py      | 2 +-
 weio/bladed_out_file.py        | 2 +-
 weio/bmodes_out_file.py        | 2 +-
 weio/cactus_element_file.py    | 2 +-
 weio/fast_input_file.py        | 4 +++-
 weio/raawmat_file.py           | 2 +-
 weio/rosco_performance_file.py | 2 +-
 7 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/weio/_NEWFILE_TEMPLATE.py b/weio/_NEWFILE_TEMPLATE.py
index 42ba251..f827a17 100644
--- a/weio/_NEWFILE_TEMPLATE.py
+++ b/weio/_NEWFILE_TEMPLATE.py
@@ -6,7 +6,7 @@ import pandas as pd
 import os
 
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     EmptyFileError    = type('EmptyFileError', (Exception,),{})
     WrongFormatError  = type('WrongFormatError', (Exception,),{})
diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index 8cc2aea..0fc0f6e 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -6,7 +6,7 @@ import pandas as pd
 import glob
 import shlex
 # try:
-from .file import File, WrongFormatError, BrokenFormatError, isBinary
+from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError, isBinary
 # except:
 #     EmptyFileError    = type('EmptyFileError', (Exception,),{})
 #     WrongFormatError  = type('WrongFormatError', (Exception,),{})
diff --git a/weio/bmodes_out_file.py b/weio/bmodes_out_file.py
index 9022ccf..ca6f705 100644
--- a/weio/bmodes_out_file.py
+++ b/weio/bmodes_out_file.py
@@ -6,7 +6,7 @@ import pandas as pd
 import os
 
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     EmptyFileError    = type('EmptyFileError', (Exception,),{})
     WrongFormatError  = type('WrongFormatError', (Exception,),{})
diff --git a/weio/cactus_element_file.py b/weio/cactus_element_file.py
index b899787..5173181 100644
--- a/weio/cactus_element_file.py
+++ b/weio/cactus_element_file.py
@@ -3,7 +3,7 @@ import pandas as pd
 import os
 
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     EmptyFileError    = type('EmptyFileError', (Exception,),{})
     WrongFormatError  = type('WrongFormatError', (Exception,),{})
diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 51a6868..8ff9b68 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -8,13 +8,15 @@ from builtins import str
 from future import standard_library
 standard_library.install_aliases()
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     # --- Allowing this file to be standalone..
     class WrongFormatError(Exception):
         pass
     class BrokenFormatError(Exception):
         pass
+    class EmptyFileError(Exception):
+        pass
     File = dict
 import os
 import numpy as np
diff --git a/weio/raawmat_file.py b/weio/raawmat_file.py
index fc5661e..dc7d063 100644
--- a/weio/raawmat_file.py
+++ b/weio/raawmat_file.py
@@ -111,7 +111,7 @@ def matfile(path_file,output='pandas',path_key=None):
         return ds
 
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     EmptyFileError    = type('EmptyFileError', (Exception,),{})
     WrongFormatError  = type('WrongFormatError', (Exception,),{})
diff --git a/weio/rosco_performance_file.py b/weio/rosco_performance_file.py
index 18deea1..00c44c8 100644
--- a/weio/rosco_performance_file.py
+++ b/weio/rosco_performance_file.py
@@ -6,7 +6,7 @@ import pandas as pd
 import os
 
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     EmptyFileError    = type('EmptyFileError', (Exception,),{})
     WrongFormatError  = type('WrongFormatError', (Exception,),{})
-- 
2.43.0


From 204480d1a4953483b4e19f0ae0166b58bf9ecbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:21 +0000
Subject: [PATCH 08/92] fix: ROSCOPerformanceFile.write raised NameError after
 truncating its target

---
 weio/rosco_performance_file.py | 72 +++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 36 deletions(-)

diff --git a/weio/rosco_performance_file.py b/weio/rosco_performance_file.py
index 00c44c8..9cbc0c2 100644
--- a/weio/rosco_performance_file.py
+++ b/weio/rosco_performance_file.py
@@ -4,6 +4,7 @@ Input/output class for the ROSCO performance (Cp,Ct,Cq) fileformat
 import numpy as np
 import pandas as pd
 import os
+from datetime import datetime
 
 try:
     from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
@@ -185,48 +186,47 @@ def write_rotor_performance(txt_filename, pitch, TSR, CP, CT, CQ, WS=None, Turbi
         txt_filename: str, optional
                         Desired output filename to print rotor performance data. Default is Cp_Ct_Cq.txt
     '''
-    file = open(txt_filename,'w')
-    # Headerlines
-    file.write('# ----- Rotor performance tables for the {} wind turbine ----- \n'.format(TurbineName))
-    file.write('# ------------ Written on {} using the ROSCO toolbox ------------ \n\n'.format(now.strftime('%b-%d-%y')))
-
-    # Pitch angles, TSR, and wind speed
-    file.write('# Pitch angle vector, {} entries - x axis (matrix columns) (deg)\n'.format(len(pitch)))
-    for i in range(len(pitch)):
-        file.write('{:0.4}   '.format(pitch[i]))
-    file.write('\n# TSR vector, {} entries - y axis (matrix rows) (-)\n'.format(len(TSR)))
-    for i in range(len(TSR)):
-        file.write('{:0.4}    '.format(TSR[i]))
-    if WS is not None:
-        file.write('\n# Wind speed vector - z axis (m/s)\n')
-        for i in range(len(WS)):
-            file.write('{:0.4}    '.format(WS[i]))
-        file.write('\n')
+    with open(txt_filename,'w') as file:
+        # Headerlines
+        file.write('# ----- Rotor performance tables for the {} wind turbine ----- \n'.format(TurbineName))
+        file.write('# ------------ Written on {} using the ROSCO toolbox ------------ \n\n'.format(datetime.now().strftime('%b-%d-%y')))
+
+        # Pitch angles, TSR, and wind speed
+        file.write('# Pitch angle vector, {} entries - x axis (matrix columns) (deg)\n'.format(len(pitch)))
+        for i in range(len(pitch)):
+            file.write('{:0.4}   '.format(pitch[i]))
+        file.write('\n# TSR vector, {} entries - y axis (matrix rows) (-)\n'.format(len(TSR)))
+        for i in range(len(TSR)):
+            file.write('{:0.4}    '.format(TSR[i]))
+        if WS is not None:
+            file.write('\n# Wind speed vector - z axis (m/s)\n')
+            for i in range(len(WS)):
+                file.write('{:0.4}    '.format(WS[i]))
+            file.write('\n')
     
-    # Cp
-    file.write('\n# Power coefficient\n\n')
-    for i in range(len(TSR)):
-        for j in range(len(pitch)):
-            file.write('{0:.6f}   '.format(CP[i,j]))
+        # Cp
+        file.write('\n# Power coefficient\n\n')
+        for i in range(len(TSR)):
+            for j in range(len(pitch)):
+                file.write('{0:.6f}   '.format(CP[i,j]))
+            file.write('\n')
         file.write('\n')
-    file.write('\n')
     
-    # Ct
-    file.write('\n#  Thrust coefficient\n\n')
-    for i in range(len(TSR)):
-        for j in range(len(pitch)):
-            file.write('{0:.6f}   '.format(CT[i,j]))
+        # Ct
+        file.write('\n#  Thrust coefficient\n\n')
+        for i in range(len(TSR)):
+            for j in range(len(pitch)):
+                file.write('{0:.6f}   '.format(CT[i,j]))
+            file.write('\n')
         file.write('\n')
-    file.write('\n')
     
-    # Cq
-    file.write('\n# Torque coefficient\n\n')
-    for i in range(len(TSR)):
-        for j in range(len(pitch)):
-            file.write('{0:.6f}   '.format(CQ[i,j]))
+        # Cq
+        file.write('\n# Torque coefficient\n\n')
+        for i in range(len(TSR)):
+            for j in range(len(pitch)):
+                file.write('{0:.6f}   '.format(CQ[i,j]))
+            file.write('\n')
         file.write('\n')
-    file.write('\n')
-    file.close()
 
 
 
-- 
2.43.0


From bb2cd4b72d9f09495792bf49fb448892e537be2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:39 +0000
Subject: [PATCH 09/92] fix: ExcelFile.write failed with current pandas and
 without xlsxwriter

---
 weio/excel_file.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/weio/excel_file.py b/weio/excel_file.py
index df28931..ed18050 100644
--- a/weio/excel_file.py
+++ b/weio/excel_file.py
@@ -48,12 +48,12 @@ class ExcelFile(File):
     #    return s
 
     def _write(self):
-        # Create a Pandas Excel writer using XlsxWriter as the engine.
-        writer = pd.ExcelWriter(self.filename, engine='xlsxwriter')
-        # Convert the dataframe to an XlsxWriter Excel object.
-        for k,_ in self.data.items():
-            df = self.data[k]
-            df.to_excel(writer, sheet_name=k, index=False)
+        # Create a Pandas Excel writer, it is closed at the end of the block
+        with pd.ExcelWriter(self.filename) as writer:
+            # Convert the dataframe to an Excel object.
+            for k,_ in self.data.items():
+                df = self.data[k]
+                df.to_excel(writer, sheet_name=k, index=False)
         # # Account info columns (set size)
         # worksheet.set_column('B:D', 20)
         # # Total formatting
@@ -72,8 +72,6 @@ class ExcelFile(File):
         #worksheet.conditional_format(color_range, {'type': 'bottom',
         #                                           'value': '5',
         #                                           'format': format1})
-        # Close the Pandas Excel writer and output the Excel file.
-        writer.save()
 
     def __repr__(self):
         s ='Class XXXX (attributes: data)\n'
-- 
2.43.0


From cc032e9b13686a456fd8e411a99bf3e2fdf2131e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:50 +0000
Subject: [PATCH 10/92] fix: ExcelFile.read retried after I/O errors and left
 its file open

---
 weio/excel_file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weio/excel_file.py b/weio/excel_file.py
index ed18050..776cdd5 100644
--- a/weio/excel_file.py
+++ b/weio/excel_file.py
@@ -26,7 +26,9 @@ class ExcelFile(File):
         # Reading all sheets
         try:
             xls = pd.ExcelFile(self.filename,  engine='openpyxl')
-        except:
+        except (OSError, MemoryError):
+            raise # not related to the content of the file
+        except Exception:
             xls = pd.ExcelFile(self.filename)
         dfs = {}
         for sheet_name in xls.sheet_names:
@@ -42,6 +44,7 @@ class ExcelFile(File):
                 df=df.rename(columns=df.iloc[0]).drop(df.index[0]).reset_index(drop=True)
                 #print(df)
                 self.data[sheet_name]=df
+        xls.close()
 
     #def toString(self):
     #    s=''
-- 
2.43.0


From 4ee25476f549617298f3e575a46502ef1570f081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:50 +0000
Subject: [PATCH 11/92] fix: NetCDFFile kept its file open and its data changed
 when the file was rewritten

---
 weio/netcdf_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weio/netcdf_file.py b/weio/netcdf_file.py
index e54e412..813263b 100644
--- a/weio/netcdf_file.py
+++ b/weio/netcdf_file.py
@@ -31,7 +31,8 @@ class NetCDFFile(File):
         except:
             raise Exception('Python module `xarray` not installed')
 
-        self.data=xr.open_dataset(self.filename)
+        # NOTE: load, not open: the data should not depend on what happens to the file later
+        self.data=xr.load_dataset(self.filename)
 
     def _write(self):
         self.data.to_netcdf(self.filename)
-- 
2.43.0


From ed716397bac548cc45e35e1b9c6cdc515144179d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:23 +0000
Subject: [PATCH 12/92] fix: TurbSimFile.toDataFrame and other accessors
 modified the wind field in place

---
 weio/turbsim_file.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index 5cee26a..6e74488 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -248,9 +248,9 @@ class TurbSimFile(File):
         v = ts['u'][1,:,iy0,iz0]
         w = ts['u'][2,:,iy0,iz0]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u - np.mean(u)
+            v = v - np.mean(v)
+            w = w - np.mean(w)
         return u, v, w
 
     def _latline(ts, ix0=None, iz0=None, removeMean=False):
@@ -264,9 +264,9 @@ class TurbSimFile(File):
         v = ts['u'][1,ix0,:,iz0]
         w = ts['u'][2,ix0,:,iz0]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u - np.mean(u)
+            v = v - np.mean(v)
+            w = w - np.mean(w)
         return u, v, w
 
     def _vertline(ts, ix0=None, iy0=None, removeMean=False):
@@ -280,9 +280,9 @@ class TurbSimFile(File):
         v = ts['u'][1,ix0,iy0,:]
         w = ts['u'][2,ix0,iy0,:]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u - np.mean(u)
+            v = v - np.mean(v)
+            w = w - np.mean(w)
         return u, v, w
 
     # --------------------------------------------------------------------------------}
@@ -301,9 +301,9 @@ class TurbSimFile(File):
         v = ts['u'][1,:,:,iz0]
         w = ts['u'][2,:,:,iz0]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u - np.mean(u)
+            v = v - np.mean(v)
+            w = w - np.mean(w)
         return u, v, w
 
     def verticalPlane(ts, y=None, iy0=None, removeMean=False):
@@ -319,9 +319,9 @@ class TurbSimFile(File):
         v = ts['u'][1,:,iy0,:]
         w = ts['u'][2,:,iy0,:]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u - np.mean(u)
+            v = v - np.mean(v)
+            w = w - np.mean(w)
         return u, v, w
 
     # --------------------------------------------------------------------------------}
-- 
2.43.0


From 41ebae98903c6890c43a3de9ca5ff118b3c56661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:23 +0000
Subject: [PATCH 13/92] fix: TurbSimFile.write started the frames over after a
 write error and reported success

---
 weio/turbsim_file.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index 6e74488..55f47d9 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -161,14 +161,9 @@ class TurbSimFile(File):
             f.write(struct.pack('<6f', scl[0],off[0],scl[1],off[1],scl[2],off[2]))
             f.write(struct.pack('<l' , len(info)))
             f.write(info.encode())
-            try:
-                for it in np.arange(nt):
-                    f.write(out[:,it,:,:].tobytes(order='F'))
-                    f.write(outTwr[:,it,:].tobytes(order='F'))
-            except:
-                for it in np.arange(nt):
-                    f.write(out[:,it,:,:].tostring(order='F'))
-                    f.write(outTwr[:,it,:].tostring(order='F'))
+            for it in np.arange(nt):
+                f.write(out[:,it,:,:].tobytes(order='F'))
+                f.write(outTwr[:,it,:].tobytes(order='F'))
 
     # --------------------------------------------------------------------------------}
     # --- Convenient properties (matching Mann Box interface as well)
-- 
2.43.0


From a893e8aab55609e71c0054ab09f8288fac045066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:25 +0000
Subject: [PATCH 14/92] fix: TurbSimFile.write let 16-bit values wrap around
 for fields with a large mean and a small range

---
 weio/turbsim_file.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index 55f47d9..5cd6a04 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -145,8 +145,9 @@ class TurbSimFile(File):
             else:
                 scl[k] = intrng / (all_max-all_min)
             off[k]    = intmin - scl[k] * all_min
-            out[k]    = (ts[k]    * scl[k] + off[k]).astype(np.int16)
-            outTwr[k] = (tsTwr[k] * scl[k] + off[k]).astype(np.int16)
+            # NOTE: scl and off are single precision, clipping so that the integers cannot wrap around
+            out[k]    = np.clip(ts[k]    * scl[k] + off[k], intmin, intmin+intrng).astype(np.int16)
+            outTwr[k] = np.clip(tsTwr[k] * scl[k] + off[k], intmin, intmin+intrng).astype(np.int16)
         z0 = self['z'][0]
         dz = self['z'][1]- self['z'][0]
         dy = self['y'][1]- self['y'][0]
-- 
2.43.0


From d9cc10c1d72e0b4847982705475f0988c700a5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:38 +0000
Subject: [PATCH 15/92] fix: HAWC2 dat, ae and pc readers accepted files with
 fewer values than declared

---
 weio/wetb/hawc2/Hawc2io.py | 5 ++++-
 weio/wetb/hawc2/ae_file.py | 2 ++
 weio/wetb/hawc2/pc_file.py | 2 ++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/Hawc2io.py b/weio/wetb/hawc2/Hawc2io.py
index 192ab50..2bbbb1b 100644
--- a/weio/wetb/hawc2/Hawc2io.py
+++ b/weio/wetb/hawc2/Hawc2io.py
@@ -246,7 +246,10 @@ class ReadHawc2(object):
             j = 0
             for i in ChVec:
                 fid.seek(i * self.NrSc * 2, 0)
-                data[:, j] = np.fromfile(fid, 'int16', self.NrSc) * self.ScaleFactor[i]
+                channel = np.fromfile(fid, 'int16', self.NrSc)
+                if len(channel)!=self.NrSc:
+                    raise Exception('Read only {} of {} values for channel {}'.format(len(channel), self.NrSc, i+1))
+                data[:, j] = channel * self.ScaleFactor[i]
                 j += 1
         return data
 ################################################################################
diff --git a/weio/wetb/hawc2/ae_file.py b/weio/wetb/hawc2/ae_file.py
index 2521d47..39f7382 100644
--- a/weio/wetb/hawc2/ae_file.py
+++ b/weio/wetb/hawc2/ae_file.py
@@ -117,6 +117,8 @@ class AEFile(object):
             set_nr, n_rows = [int(v) for v in lines[lptr].split()[:2]]
             lptr += 1
             data = np.array([[float(v) for v in l.split()[:4]] for l in lines[lptr:lptr + n_rows]])
+            if len(data)!=n_rows:
+                raise Exception('Set {} should have {} rows, {} found'.format(set_nr, n_rows, len(data)))
             self.ae_sets[set_nr] = data
             lptr += n_rows
 
diff --git a/weio/wetb/hawc2/pc_file.py b/weio/wetb/hawc2/pc_file.py
index 83e0a1b..5b10874 100644
--- a/weio/wetb/hawc2/pc_file.py
+++ b/weio/wetb/hawc2/pc_file.py
@@ -45,6 +45,8 @@ class PCFile(object):
                 profile_nr, n_rows, thickness = int(profile_nr), int(n_rows), float(thickness)
                 lptr += 1
                 data = np.array([[float(v) for v in l.split()[:4]] for l in lines[lptr:lptr + n_rows]])
+                if len(data)!=n_rows:
+                    raise Exception('Profile {} should have {} rows, {} found'.format(profile_nr, n_rows, len(data)))
                 thicknesses.append(thickness)
                 profiles.append(data)
                 lptr += n_rows
-- 
2.43.0


From a9dfb45aa414a12cbd9fd04d6e03b1470ea46fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:13 +0000
Subject: [PATCH 16/92] fix: FLEXProfileFile.write always failed after
 truncating its target

---
 weio/flex_profile_file.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/weio/flex_profile_file.py b/weio/flex_profile_file.py
index 032b747..87d27d0 100644
--- a/weio/flex_profile_file.py
+++ b/weio/flex_profile_file.py
@@ -20,11 +20,12 @@ class ProfileSet():
 
     def toString(self,PREFIX=''):
         s =PREFIX+self.header+'\n'
+        s+=str(len(self.thickness))+'\n'
         s+=' '.join([str(t) for t in self.thickness])+'\n'
         s+=str(self.polars[0].shape[0])+'\n'
         for ph,t,polar in zip(self.polar_headers,self.thickness,self.polars):
             s+=ph+'\n'
-            s+='\n'.join([' '.join(['{:15.7e}'.format(v) for v in line]) for line in polar])
+            s+='\n'.join([' '.join(['{:15.7e}'.format(v) for v in line]) for line in polar])+'\n'
 #             s+=ph+'\n'
         return s
 
@@ -84,7 +85,7 @@ class FLEXProfileFile(File):
                 except:
                     raise WrongFormatError('Number of alpha values (integer) should be on line 4')
                 if header[0].lower().find('profile set')==0:
-                    header[0]=header[0][11:]
+                    header[0]=header[0][11:].strip()
                     bHasSets=True
                 else:
                     bHasSets=False
@@ -126,7 +127,7 @@ class FLEXProfileFile(File):
 
     def _write(self):
         with open(self.filename,'w') as f:
-            f.write(self.toString)
+            f.write(self.toString())
 
     def __repr__(self):
         s ='Class FlexProfileFile (attributes: ProfileSets)\n'
-- 
2.43.0


From 7b45607d9be5a72a7d7a20ed029f22316fd7b976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:13 +0000
Subject: [PATCH 17/92] fix: writing unsupported formats (lin, cactus) emptied
 the target file

---
 weio/cactus_element_file.py     | 3 +--
 weio/cactus_file.py             | 3 +--
 weio/fast_linearization_file.py | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/weio/cactus_element_file.py b/weio/cactus_element_file.py
index 5173181..2f9f8b4 100644
--- a/weio/cactus_element_file.py
+++ b/weio/cactus_element_file.py
@@ -86,8 +86,7 @@ class CactusElementFile(File):
 
     def _write(self):
         """ """
-        with open(self.filename,'w') as f:
-            f.write(self.toString)
+        raise NotImplementedError()
 
     def toDataFrame(self):
         #cols=['Alpha_[deg]','Cl_[-]','Cd_[-]','Cm_[-]']
diff --git a/weio/cactus_file.py b/weio/cactus_file.py
index 7745a39..47b459a 100644
--- a/weio/cactus_file.py
+++ b/weio/cactus_file.py
@@ -365,8 +365,7 @@ class CactusFile(File):
 
     def _write(self):
         """ """
-        with open(self.filename,'w') as f:
-            f.write(self.toString)
+        raise NotImplementedError()
 
     def toDataFrame(self, format='OpenFAST', alphaSign=-1):
         # ---
diff --git a/weio/fast_linearization_file.py b/weio/fast_linearization_file.py
index 374d432..2f971ed 100644
--- a/weio/fast_linearization_file.py
+++ b/weio/fast_linearization_file.py
@@ -153,8 +153,7 @@ class FASTLinearizationFile(File):
         return s
 
     def _write(self):
-        with open(self.filename,'w') as f:
-            f.write(self.toString())
+        raise NotImplementedError()
 
     def short_descr(self,slist):
         def shortname(s):
-- 
2.43.0


From efd1652d6c8dde66e739289e0764c357a0c78434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:33 +0000
Subject: [PATCH 18/92] fix: CSVFile did not detect the separator when the
 first value of a line is missing

---
 weio/csv_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index 0ef2485..0bd4404 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -159,9 +159,9 @@ class CSVFile(File):
                     dummy=[next(f).strip() for x in range(iStartLine)]
                     head=[next(f).strip() for x in range(2)]
                 # comma, semi columns or tab
-                if head[1].find(',')>0:
+                if head[1].find(',')>=0: # NOTE: the first value may be missing
                     self.sep=','
-                elif head[1].find(';')>0:
+                elif head[1].find(';')>=0:
                     self.sep=';'
                 elif head[1].find('\t')>0:
                     self.sep='\t'
-- 
2.43.0


From b56ff9d795b373afdb859fcb5aa27fb3f4a233fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:09 +0000
Subject: [PATCH 19/92] fix: CSVFile.write lost the column names of files with
 a header, and shifted values after a missing one in whitespace separated
 files

---
 weio/csv_file.py       | 37 ++++++++++++++++++++-----------------
 weio/fast_wind_file.py |  3 +++
 2 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index 0bd4404..6f452d5 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -252,27 +252,30 @@ class CSVFile(File):
         #import pdb
         #pdb.set_trace()
 
+    def _colNamesInHeader(self, sep):
+        """ True if a reader will find the column names in the header, and not on a line of their own"""
+        names = [str(c).strip() for c in self.data.columns]
+        for l in self.header:
+            if self.commentChar is not None:
+                l = l[len(self.commentChar):]
+            if [c.strip() for c in l.strip().split(sep)]==names:
+                return True
+        return False
+
     def _write(self):
         # --- Safety
-        if self.sep==r'\s+' or self.sep=='':
-            self.sep='\t'
+        sep = self.sep
+        if sep is None:
+            sep = ','
+        elif sep==r'\s+' or sep.strip(' ')=='':
+            sep = '\t'
+        # A missing value cannot be left empty with a whitespace separator
+        na_rep = 'nan' if sep=='\t' else ''
         # Write
-        if len(self.header)>0:
-            with open(self.filename, 'w', encoding='utf-8') as f:
+        with open(self.filename, 'w', encoding='utf-8', newline='') as f:
+            if len(self.header)>0:
                 f.write('\n'.join(self.header)+'\n')
-            with open(self.filename, 'a', encoding='utf-8') as f:
-                try:
-                    self.data.to_csv(f,   sep=self.sep,     index=False,header=False, line_terminator='\n')
-                except TypeError:
-                    print('[WARN] CSVFile: Pandas failed, likely encoding error. Attempting a quick and dirty fix.')
-                    s=''
-                    vals=self.data.values
-                    for l in vals:
-                        sLine=(self.sep).join([str(v) for v in l])
-                        s+=sLine+'\n'
-                    f.write(s)
-        else:
-            self.data.to_csv(self.filename,sep=self.sep,index=False)
+            self.data.to_csv(f, sep=sep, index=False, header=not self._colNamesInHeader(sep), na_rep=na_rep)
 
     def __repr__(self):
         s = 'CSVFile: {}\n'.format(self.filename)
diff --git a/weio/fast_wind_file.py b/weio/fast_wind_file.py
index b642d89..6a65711 100644
--- a/weio/fast_wind_file.py
+++ b/weio/fast_wind_file.py
@@ -42,6 +42,9 @@ class FASTWndFile(CSVFile):
             raise WrongFormatError('This is a binary file (turbulence file?) not a FAST ascii determinisctic wind file')
         super(FASTWndFile, self)._read(*args, **kwargs)
 
+    def _colNamesInHeader(self, sep):
+        return True # the column names are known, they are not part of the data
+
     def _write(self, *args, **kwargs):
         super(FASTWndFile, self)._write(*args, **kwargs)
 
-- 
2.43.0


From 66bdaf5dced36d0e93b10e91d74bca59e0284547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:33 +0000
Subject: [PATCH 20/92] fix: CSVFile applied the options detected in a previous
 file when reading again

---
 weio/csv_file.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index 6f452d5..6628779 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -52,12 +52,25 @@ class CSVFile(File):
             else:
                 self.header=header
         self.nHeader=0
+        self._detected={}
         if (len(self.commentLines)>0) and (self.commentChar is not None):
             raise Exception('Provide either `commentChar` or `commentLines` for CSV file types')
         if (len(self.colNames)>0) and (self.colNamesLine is not None):
             raise Exception('Provide either `colNames` or `colNamesLine` for CSV file types')
         super(CSVFile, self).__init__(filename=filename,**kwargs)
 
+    def read(self, filename=None, **kwargs):
+        # Options that a previous call detected are detected again, the ones set by the user are kept
+        options = ['sep','colNames','commentChar','commentLines','colNamesLine']
+        for k,(given,detected) in self._detected.items():
+            if getattr(self,k) is detected:
+                setattr(self,k,given)
+        given = {k:getattr(self,k) for k in options}
+        try:
+            super(CSVFile, self).read(filename, **kwargs)
+        finally:
+            self._detected = {k:(given[k],getattr(self,k)) for k in options}
+
     def _read(self):
         COMMENT_CHAR=['#','!',';']
         # --- Detecting encoding
-- 
2.43.0


From afcb25ae0666ff4622da58d967cbd5f9760aef48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:59 +0000
Subject: [PATCH 21/92] fix: the order of user formats depended on the
 directory listing, and a __init__.py in the user folder was taken for a
 format

---
 weio/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/__init__.py b/weio/__init__.py
index cc31316..c3019c6 100644
--- a/weio/__init__.py
+++ b/weio/__init__.py
@@ -140,10 +140,10 @@ def userFileClasses(userpath=None, ignoreErrors=False, verbose=True):
         import glob
         from importlib.machinery import SourceFileLoader
         import inspect
-        pyfiles = glob.glob(os.path.join(userpath,'*.py'))
+        pyfiles = sorted(glob.glob(os.path.join(userpath,'*.py')))
         # Loop through files, look for classes of the form ClassNameFile, 
         for f in pyfiles:
-            if f in ['__init__.py']:
+            if os.path.basename(f) in ['__init__.py']:
                 continue
             mod_name = os.path.basename(os.path.splitext(f)[0])
             try:
-- 
2.43.0


From 44c2e6f320680b3d2fb6bd342cce1e9a01247cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:59 +0000
Subject: [PATCH 22/92] fix: fileFormats(ignoreErrors=True) returned no list of
 errors when called again

---
 weio/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/weio/__init__.py b/weio/__init__.py
index c3019c6..a7bb55f 100644
--- a/weio/__init__.py
+++ b/weio/__init__.py
@@ -12,14 +12,17 @@ class UserFormatImportError(Exception):
 
 
 _FORMATS=None
+_FORMATS_ERRORS=[]
 
 def fileFormats(userpath=None, ignoreErrors=False, verbose=False):
     """ return list of fileformats supported by the library
     If userpath is provided, 
 
     """
-    global _FORMATS
+    global _FORMATS, _FORMATS_ERRORS
     if _FORMATS is not None:
+        if ignoreErrors:
+            return _FORMATS, list(_FORMATS_ERRORS)
         return _FORMATS
     # --- Library formats
     from .fast_input_file         import FASTInputFile
@@ -117,8 +120,9 @@ def fileFormats(userpath=None, ignoreErrors=False, verbose=False):
     formats = np.asarray(formats)[np.argsort(priorities, kind='stable')]
 
     _FORMATS=formats
+    _FORMATS_ERRORS=errors
     if ignoreErrors:
-        return formats, errors
+        return formats, list(errors)
     else:
         return formats
 
-- 
2.43.0


From 912fb1888e6eb3509de29a5ac7e6d1f075c83403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:59 +0000
Subject: [PATCH 23/92] fix: weio.read ignored the reading options when the
 file format was given

---
 weio/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/__init__.py b/weio/__init__.py
index a7bb55f..2bf5b95 100644
--- a/weio/__init__.py
+++ b/weio/__init__.py
@@ -250,7 +250,7 @@ def read(filename, fileformat=None, **kwargs):
         fileformat,F = detectFormat(filename, **kwargs)
     # Reading the file with the appropriate class if necessary
     if not isinstance(F, fileformat.constructor):
-        F=fileformat.constructor(filename=filename)
+        F=fileformat.constructor(filename=filename, **kwargs)
     return F
 
 
-- 
2.43.0


From fe5d3f8686ad4ecacc716701905a1a9135175204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:09 +0000
Subject: [PATCH 24/92] fix: FASTInputFile.read kept the type of the previous
 file when reading another one

---
 weio/fast_input_file.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 8ff9b68..393e0cf 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -99,7 +99,11 @@ class FASTInputFile(File):
             return self.basefile
 
     def read(self, filename=None):
-        return self.fixedfile.read(filename)
+        if filename is None:
+            filename = self.filename
+        # The file might be of another type than the one previously read
+        self._fixedfile = None
+        return self.basefile.read(filename)
 
     def write(self, filename=None):
         return self.fixedfile.write(filename)
-- 
2.43.0


From 40d2bfaa30cbcfa15fa1b5489f6609deb09212e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:09 +0000
Subject: [PATCH 25/92] fix: the comment of FAST input files could not be set,
 and could not be read for polar files

---
 weio/fast_input_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 393e0cf..30495b4 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -130,7 +130,7 @@ class FASTInputFile(File):
 
     @comment.setter
     def comment(self,comment):
-        self.fixedfile.comment(comment)
+        self.fixedfile.comment = comment
 
     def __iter__(self):
         return self.fixedfile.__iter__()
@@ -1638,7 +1638,7 @@ class ADPolarFile(FASTInputFileBase):
 
     @property
     def comment(self):
-        return FASTInputFileBase.comment
+        return '\n'.join([self.data[i]['value'][1:].strip() for i in self._IComment])
 
     @comment.setter
     def comment(self, comment):
-- 
2.43.0


From c874c11953f4bc227b466666d7866c02f631e56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:09 +0000
Subject: [PATCH 26/92] fix: EDBladeFile could not be constructed from a file

---
 weio/fast_input_file.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 30495b4..14b0659 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1350,7 +1350,12 @@ class EDBladeFile(FASTInputFileBase):
             self.addValKey(     0.0   , 'BldEdgSh(6)', '           , coeff of x^6')
         else:
             # fix some stuff that generic reader fail at
-            self.data[1] =  self._lines[1]
+            with open(self.filename, 'r', errors="surrogateescape") as f:
+                lines=f.read().splitlines()
+            d = getDict()
+            d['isComment'] = True
+            d['value']     = lines[1]
+            self.data[1] = d
         self.module='EDBlade'
 
     def _writeSanityChecks(self):
-- 
2.43.0


From 1592052488e74313ea8c7e23829bce86f242eba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:09 +0000
Subject: [PATCH 27/92] fix: FASTInputFile.write emptied its target when the
 data cannot be written

---
 weio/fast_input_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 14b0659..93922b4 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -753,8 +753,9 @@ class FASTInputFileBase(File):
 
     def _write(self):
         self._writeSanityChecks()
+        s = self.toString() # NOTE: before opening, a failure should not empty the file
         with open(self.filename,'w') as f:
-            f.write(self.toString())
+            f.write(s)
 
     def toDataFrame(self):
         return self._toDataFrame()
-- 
2.43.0


From 63eba3f996e76c6f07f918a8214afd0727352013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:09 +0000
Subject: [PATCH 28/92] fix: ADPolarFile lost its table labels when a write
 failed

---
 weio/fast_input_file.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 93922b4..e7f0fdc 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1592,12 +1592,15 @@ class ADPolarFile(FASTInputFileBase):
                     i = self.getIDSafe(labRaw+labOffset)
                     if i>0:
                         self.data[i]['label'] = labRaw
-            # Write
-            with open(self.filename,'w') as f:
-                f.write(self.toString())
-            # Restore labels 
-            for i,labFull in enumerate(AllLabels):
-                self.data[i]['label'] = labFull
+            try:
+                # Write
+                s = self.toString()
+                with open(self.filename,'w') as f:
+                    f.write(s)
+            finally:
+                # Restore labels 
+                for i,labFull in enumerate(AllLabels):
+                    self.data[i]['label'] = labFull
 
     def _toDataFrame(self):
         dfs = FASTInputFileBase._toDataFrame(self)
-- 
2.43.0


From e9087743c96848d7f9be7123ab9501174458e33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:09 +0000
Subject: [PATCH 29/92] fix: FASTInputFile ignored values set for unknown keys,
 and iterating over it raised IndexError

---
 weio/fast_input_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index e7f0fdc..b110f79 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -212,7 +212,7 @@ class FASTInputFileBase(File):
             d = self.data[i]
             if d['label'].lower()==label.lower():
                 I.append(i)
-        if len(I)<0:
+        if len(I)<=0:
             raise KeyError('Variable `'+ label+'` not found in FAST file:'+self.filename)
         else:
             return I
@@ -232,7 +232,7 @@ class FASTInputFileBase(File):
         return self
 
     def __next__(self): # Python 2: def next(self)
-        if self.iCurrent > self.iMax:
+        if self.iCurrent >= self.iMax:
             raise StopIteration
         else:
             self.iCurrent += 1
-- 
2.43.0


From b9b85dcfc1fd7d35178caf7792d1d8cd304f1fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:09 +0000
Subject: [PATCH 30/92] fix: ExtPtfmFile dropped the last time step when T/dt
 is rounded down

---
 weio/fast_input_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index b110f79..6c620e7 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1715,7 +1715,7 @@ def detectAndReadExtPtfmSE(self, lines):
                 i=i+1+nDOF
             elif l.find('!loading')==0:
                 try: 
-                    nt=int(self['T']/self['dt'])+1
+                    nt=int(np.floor(self['T']/self['dt']+1e-6))+1
                 except:
                     raise BrokenFormatError('Cannot read loading since time step and simulation time not properly set.')
                 self.addKeyVal('Loading',readmat(nt,nDOFCommon+1,lines,i+2))
-- 
2.43.0


From a4afc502f519e322bd8b4b2d88dd827855652320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:21 +0000
Subject: [PATCH 31/92] fix: lin and FLEX doc files kept the content of the
 previous file, or failed, when read again

---
 weio/fast_linearization_file.py | 1 +
 weio/flex_doc_file.py           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/weio/fast_linearization_file.py b/weio/fast_linearization_file.py
index 2f971ed..2a60e94 100644
--- a/weio/fast_linearization_file.py
+++ b/weio/fast_linearization_file.py
@@ -42,6 +42,7 @@ class FASTLinearizationFile(File):
         return 'FAST linearization output'
 
     def _read(self, *args, **kwargs):
+        self.clear() # removing what a previous file contained
         self['header']=[]
 
         def extractVal(lines, key):
diff --git a/weio/flex_doc_file.py b/weio/flex_doc_file.py
index aeac114..9146eef 100644
--- a/weio/flex_doc_file.py
+++ b/weio/flex_doc_file.py
@@ -79,6 +79,7 @@ class FLEXDocFile(File):
         numeric_const_pattern = r'[-+]? (?: (?: \d* \. \d+ ) | (?: \d+ \.? ) )(?: [Ee] [+-]? \d+ ) ?'
         rx = re.compile(numeric_const_pattern, re.VERBOSE)
 
+        self.clear() # removing what a previous file contained
         i=0
         while i<len(lines):
             l=lines[i]
-- 
2.43.0


From 0779e8ade259914be531deadadfb6233ade5348e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:14 +0000
Subject: [PATCH 32/92] fix: FASTOutputFile.writeDataFrame gave channels
 without unit the unit of another channel

---
 weio/fast_output_file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 2389fd2..4ae6b49 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -380,12 +380,12 @@ def writeDataFrame(df, filename, binary=True):
             iu=c.rfind(op)
             if iu>1:
                 name = c[:iu]
-                unit = c[iu+1:].replace(cl,'')
+                units = c[iu+1:].replace(cl,'')
                 if name[-1]=='_':
                     name=name[:-1]
                 
         chanNames.append(name)
-        chanUnits.append(unit)
+        chanUnits.append(units)
 
     if binary:
         writeBinary(filename, channels, chanNames, chanUnits)
@@ -412,7 +412,7 @@ def writeBinary(fileName, channels, chanNames, chanUnits, fileID=2, descStr=''):
     # Data sanitization
     chanNames = list(chanNames)
     channels  = np.asarray(channels)
-    if chanUnits[0][0]!='(':
+    if not chanUnits[0].startswith('('):
         chanUnits = ['('+u+')' for u in chanUnits] # units surrounded by parenthesis to match OpenFAST convention
 
     nT, nChannelsWithTime = np.shape(channels)
-- 
2.43.0


From c150b3220a823dc071e42ec79d259e99e4a80466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:14 +0000
Subject: [PATCH 33/92] fix: writing unsupported FAST outputs (ascii dataframe,
 file ID) reported success without writing

---
 weio/fast_output_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 4ae6b49..b3bbda1 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -390,7 +390,7 @@ def writeDataFrame(df, filename, binary=True):
     if binary:
         writeBinary(filename, channels, chanNames, chanUnits)
     else:
-        NotImplementedError()
+        raise NotImplementedError('Writing a dataframe to a FAST ascii file')
 
 
 def writeBinary(fileName, channels, chanNames, chanUnits, fileID=2, descStr=''):
@@ -448,7 +448,7 @@ def writeBinary(fileName, channels, chanNames, chanUnits, fileID=2, descStr=''):
     
     #Just available for fileID 
     if fileID != 2:
-        print("current version just works with FileID = 2")
+        raise NotImplementedError("current version just works with FileID = 2")
 
     else:
         with open(fileName,'wb') as fid:
-- 
2.43.0


From 3661c2e3bbc4472dcac971525b335aeb3f18875d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:14 +0000
Subject: [PATCH 34/92] fix: .elm files: toDataFrame renamed the columns of the
 object, write emptied its target

---
 weio/fast_output_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index b3bbda1..467fcb4 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -114,6 +114,8 @@ class FASTOutputFile(File):
             writeBinary(self.filename, channels, chanNames, chanUnits, fileID=2, descStr=descStr)
         else:
             # ascii output
+            if isinstance(self.data, pd.DataFrame):
+                raise NotImplementedError('Writing this type of FAST ascii file: {}'.format(self.filename))
             with open(self.filename,'w') as f:
                 f.write('\t'.join(['{:>10s}'.format(c)         for c in self.info['attribute_names']])+'\n')
                 f.write('\t'.join(['{:>10s}'.format('('+u+')') for u in self.info['attribute_units']])+'\n')
@@ -126,7 +128,7 @@ class FASTOutputFile(File):
         else:
             cols=self.info['attribute_names']
         if isinstance(self.data, pd.DataFrame):
-            df= self.data
+            df= self.data.copy()
             df.columns=cols
         else:
             df = pd.DataFrame(data=self.data,columns=cols)
-- 
2.43.0


From 185de64dd4e5eca6b82aff68d18b9372e07afa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:14 +0000
Subject: [PATCH 35/92] fix: FAST ascii outputs with a single time step were
 read as a vector

---
 weio/fast_output_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 467fcb4..cddd6af 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -191,7 +191,7 @@ def load_ascii_output(filename):
         # Data, up to end of file or empty line (potential comment line at the end)
 #         data = np.array([l.strip().split() for l in takewhile(lambda x: len(x.strip())>0, f.readlines())]).astype(np.float)
         # ---
-        data = np.loadtxt(f, comments=('This')) # Adding "This" for the Hydro Out files..
+        data = np.loadtxt(f, comments=('This'), ndmin=2) # Adding "This" for the Hydro Out files..
         return data, info
 
 
-- 
2.43.0


From dd3f5a76840d105131b6697d72e858406b725754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:14 +0000
Subject: [PATCH 36/92] fix: HAWC2DatFile.toDataFrame changed the channel names
 of the object at each call

---
 weio/hawc2_dat_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/hawc2_dat_file.py b/weio/hawc2_dat_file.py
index afea6b7..dc1e32e 100644
--- a/weio/hawc2_dat_file.py
+++ b/weio/hawc2_dat_file.py
@@ -57,7 +57,7 @@ class HAWC2DatFile(File):
         import re
 
         # Simplify output names
-        names=self.info['attribute_names']
+        names=list(self.info['attribute_names']) # NOTE: copy
         for i,desc in enumerate(self.info['attribute_descr']):
             elem = re.findall(r'E-nr:\s*(\d+)', desc)
             zrel = re.findall(r'Z-rel:\s*(\d+.\d+)', desc)
-- 
2.43.0


From 6b75424e7b32869fe11bc1c0af12ea4142d94b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:14 +0000
Subject: [PATCH 37/92] fix: HAWC2DatFile.write to a sel file replaced the
 extension anywhere in the path

---
 weio/hawc2_dat_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/hawc2_dat_file.py b/weio/hawc2_dat_file.py
index dc1e32e..a72527d 100644
--- a/weio/hawc2_dat_file.py
+++ b/weio/hawc2_dat_file.py
@@ -107,7 +107,7 @@ class HAWC2DatFile(File):
         if ext=='.dat':
             datfilename=filename
         elif ext=='.sel':
-            datfilename=filename.replace(ext,'.dat')
+            datfilename=os.path.splitext(filename)[0]+'.dat'
         else:
             datfilename=filename+'.dat'
         selfilename=datfilename[:-4]+'.sel'
-- 
2.43.0


From d78c37081ea34e324391e4ea55a86ee8390b525a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:29 +0000
Subject: [PATCH 38/92] fix: FASTSummaryFile used the data of the last file
 read in the methods of all objects, and toJSON changed the elements

---
 weio/fast_summary_file.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/weio/fast_summary_file.py b/weio/fast_summary_file.py
index 86a75f2..ce4a88d 100644
--- a/weio/fast_summary_file.py
+++ b/weio/fast_summary_file.py
@@ -154,9 +154,9 @@ def readSubDynSum(self):
         """ return Guyan and CB modes"""
         if maxDisp is None:
             #compute max disp such as it's 10% of maxdimension
-            dx = np.max(self['X'])-np.min(self['X'])
-            dy = np.max(self['Y'])-np.min(self['Y'])
-            dz = np.max(self['Z'])-np.min(self['Z'])
+            dx = np.max(data['X'])-np.min(data['X'])
+            dy = np.max(data['Y'])-np.min(data['Y'])
+            dz = np.max(data['Z'])-np.min(data['Z'])
             maxDisp = np.max([dx,dy,dz])*0.1
 
         # NOTE: DOF have been reindexed -1
@@ -185,8 +185,8 @@ def readSubDynSum(self):
 
         dispGy, posGy, _, dispCB, posCB, _ = data.getModes()
 
-        Nodes    = self['Nodes']
-        Elements = self['Elements']
+        Nodes    = data['Nodes']
+        Elements = data['Elements'].copy()
         Elements[:,0]-=1
         Elements[:,1]-=1
         Elements[:,2]-=1
-- 
2.43.0


From 8e6dd4e572678bf03dc97e575a8a5d8370031cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:27 +0000
Subject: [PATCH 39/92] fix: VTKFile could not read or write its own filename,
 kept the content of the previous file, and write changed the data

---
 weio/vtk_file.py | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index e3ed2f7..0036293 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -57,6 +57,14 @@ class VTKFile(File):
 
     def __init__(self,filename=None,**kwargs):
         self.filename = None
+        self._reset()
+
+        # Propagate read
+        if filename:
+            self.read(filename=filename,**kwargs)
+
+    def _reset(self):
+        """ (re)initialize the data, done before each read """
         # For regular grid
         self.xp_grid=None  # location of points
         self.yp_grid=None
@@ -67,10 +75,10 @@ class VTKFile(File):
         self.points = None  
         self.field_data = {}
         self.point_data = {} 
+        self.cells = []
+        self.cell_data = {} 
         self.dataset = {} 
 
-
-
         # Data for reading only
         self.cell_data_raw = {}
         self.c = None     # Cell
@@ -81,10 +89,6 @@ class VTKFile(File):
         self.num_items = 0
         self.section = None
 
-        # Propagate read
-        if filename:
-            self.read(filename=filename,**kwargs)
-
 
     def read(self, filename=None):
         """ read a VTK file """
@@ -97,7 +101,8 @@ class VTKFile(File):
         if os.stat(self.filename).st_size == 0:
             raise EmptyFileError('File is empty:',self.filename)
 
-        with open(filename, "rb") as f:
+        self._reset()
+        with open(self.filename, "rb") as f:
             # initialize output data
             # skip header and title
             f.readline()
@@ -160,17 +165,14 @@ class VTKFile(File):
         else:
             points = self.points
 
-        if self.point_data:
-            for name, values in self.point_data.items():
-                if len(values.shape) == 2 and values.shape[1] == 2:
-                    self.point_data[name] = pad(values)
+        # NOTE: the object itself is not changed
+        def pad2D(values):
+            return pad(values) if len(values.shape) == 2 and values.shape[1] == 2 else values
 
-        for name, data in self.cell_data.items():
-            for k, values in enumerate(data):
-                if len(values.shape) == 2 and values.shape[1] == 2:
-                    data[k] = pad(data[k])
+        point_data = {name: pad2D(values) for name, values in self.point_data.items()}
+        cell_data  = {name: [pad2D(values) for values in data] for name, data in self.cell_data.items()}
 
-        with open(filename, "wb") as f:
+        with open(self.filename, "wb") as f:
             f.write(b"# vtk DataFile Version 4.2\n")
             f.write("written \n".encode("utf-8"))
             f.write(("BINARY\n" if binary else "ASCII\n").encode("utf-8"))
@@ -181,16 +183,16 @@ class VTKFile(File):
             _write_cells(f, self.cells, binary)
 
             # write point data
-            if self.point_data:
+            if point_data:
                 num_points = self.points.shape[0]
                 f.write("POINT_DATA {}\n".format(num_points).encode("utf-8"))
-                _write_field_data(f, self.point_data, binary)
+                _write_field_data(f, point_data, binary)
 
             # write cell data
-            if self.cell_data:
+            if cell_data:
                 total_num_cells = sum(len(c.data) for c in self.cells)
                 f.write("CELL_DATA {}\n".format(total_num_cells).encode("utf-8"))
-                _write_field_data(f, self.cell_data, binary)
+                _write_field_data(f, cell_data, binary)
 
 
     def __repr__(self):
-- 
2.43.0


From c439705322ea7c2c781dc92d959fe8dae76b0242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:40 +0000
Subject: [PATCH 40/92] fix: TurbSimFile.write stored constant velocity
 components with an error of up to 1 m/s

---
 weio/turbsim_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index 5cd6a04..919c4a5 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -142,9 +142,10 @@ class TurbSimFile(File):
                 all_max=max(all_max, tsTwr[k].max())
             if all_min == all_max:
                 scl[k] = 1
+                off[k] = -all_min # all integers are 0, and give back the constant
             else:
                 scl[k] = intrng / (all_max-all_min)
-            off[k]    = intmin - scl[k] * all_min
+                off[k] = intmin - scl[k] * all_min
             # NOTE: scl and off are single precision, clipping so that the integers cannot wrap around
             out[k]    = np.clip(ts[k]    * scl[k] + off[k], intmin, intmin+intrng).astype(np.int16)
             outTwr[k] = np.clip(tsTwr[k] * scl[k] + off[k], intmin, intmin+intrng).astype(np.int16)
-- 
2.43.0


From d656fbd20fbdf3ac60223feba2f0d328560b88ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:40 +0000
Subject: [PATCH 41/92] fix: htc files with a comment on an output_at_time
 section could not be written

---
 weio/wetb/hawc2/htc_contents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/htc_contents.py b/weio/wetb/hawc2/htc_contents.py
index 22aa3e4..ea3b6d5 100644
--- a/weio/wetb/hawc2/htc_contents.py
+++ b/weio/wetb/hawc2/htc_contents.py
@@ -419,7 +419,7 @@ class HTCOutputAtTimeSection(HTCOutputSection):
 
     def __str__(self, level=0):
         s = "%sbegin %s %s %s;%s\n" % ("  " * level, self.name_, self.type, self.time,
-                                       ("", "\t" + self.begin_comments)[len(self.begin_comments.strip())])
+                                       ("", "\t" + self.begin_comments)[len(self.begin_comments.strip()) > 0])
         s += "".join([c.__str__(level + 1) for c in self])
         s += "".join([s.__str__(level + 1) for s in self.sensors])
         s += "%send %s;%s\n" % ("  " * level, self.name_, ("", "\t" + self.end_comments)
-- 
2.43.0


From ba5f0c008e99b837ca79f26246ee2ab6ad15c8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:45 +0000
Subject: [PATCH 42/92] fix: FLEX result files got a wrong or unreadable time
 vector for some start times and steps (float32 arange)

---
 weio/flex_out_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/flex_out_file.py b/weio/flex_out_file.py
index d9c95e5..f05439d 100644
--- a/weio/flex_out_file.py
+++ b/weio/flex_out_file.py
@@ -41,7 +41,7 @@ class FLEXOutFile(File):
             raise WrongFormatError('FLEX File {}: '.format(self.filename)+'\n'+e.args[0])
         self.nt       = np.size(self.data,0)
         self.nSensors = np.size(self.data,1)
-        self.time = np.arange(self.tmin, self.tmin +  self.nt * self.dt, self.dt).reshape(self.nt,1).astype(dtype)
+        self.time = (self.tmin + np.arange(self.nt) * self.dt).reshape(self.nt,1).astype(dtype)
 
         # --- Then the sensor file
         sensor_filename = os.path.join(os.path.dirname(self.filename), "sensor")
-- 
2.43.0


From be72605a8fa4cc5b18633f7d5cc7795ee9b5166a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:45 +0000
Subject: [PATCH 43/92] fix: one-row Bladed ascii tables were unreadable, and
 short ones were accepted

---
 weio/bladed_out_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index 0fc0f6e..99cbf1f 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -196,7 +196,7 @@ def read_bladed_output(sensorFilename, readTimeFilesOnly=False):
         if sensorInfo['NDIMENS'] == 2:
             try:
                 # Data is stored as time, signal, we reshape to signal, time
-                data = np.loadtxt(dataFilename)
+                data = np.loadtxt(dataFilename).reshape((nMajor, nSensors),order='C')
             except ValueError as e:
                 # Most likely this was a binary file...
                 data = np.empty((nMajor, nSensors)) * np.nan
-- 
2.43.0


From 1960dd703b1b5f7f63bf0ee54acd59583ee911af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:40 +0000
Subject: [PATCH 44/92] fix: writing a HydroDyn input file appended text to its
 additional preload line every time

---
 weio/fast_input_file.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 6c620e7..d4d489a 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -720,8 +720,11 @@ class FASTInputFileBase(File):
                 s+='\n'.join('\t'.join('{:15.8e}'.format(x) for x in y) for y in d['value'])
             elif d['tabType']==TABTYPE_FIL:
                 #f.write('{} {} {}\n'.format(d['value'][0],d['tabDetect'],d['descr']))
-                s+='{} {} {}\n'.format(d['value'][0],d['label'],d['descr']) # TODO?
-                s+='\n'.join(fil for fil in d['value'][1:])
+                if d['label']=='KDAdd':
+                    s+='\n'.join(d['value']) # these lines already have their own labels and descriptions
+                else:
+                    s+='{} {} {}\n'.format(d['value'][0],d['label'],d['descr']) # TODO?
+                    s+='\n'.join(fil for fil in d['value'][1:])
             elif d['tabType']==TABTYPE_NUM_BEAMDYN:
                 # TODO use dedicated sub-class
                 data = d['value']
-- 
2.43.0


From f5291d1b4af008c680cf5ed6d5982c1d0d214b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:42 +0000
Subject: [PATCH 45/92] fix: FAST input files with non UTF-8 characters could
 be read but not written, and writing emptied the target

---
 weio/fast_input_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index d4d489a..a4883d6 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -757,7 +757,7 @@ class FASTInputFileBase(File):
     def _write(self):
         self._writeSanityChecks()
         s = self.toString() # NOTE: before opening, a failure should not empty the file
-        with open(self.filename,'w') as f:
+        with open(self.filename,'w', errors="surrogateescape") as f: # NOTE: same as for reading
             f.write(s)
 
     def toDataFrame(self):
-- 
2.43.0


From 8f52855263f04ad93f785569668e54aa533747b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:46 +0000
Subject: [PATCH 46/92] fix: airfoil coordinate files were written such that
 they could not be read

---
 weio/fast_input_file.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index a4883d6..8057378 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -689,7 +689,8 @@ class FASTInputFileBase(File):
                 s+='{}'.format(d['value'])
             elif d['tabType']==TABTYPE_NOT_A_TAB:
                 if isinstance(d['value'], list):
-                    sList=', '.join([str(x) for x in d['value']])
+                    sep = '  ' if d['label']=='AirfoilRefPoint' else ', ' # coordinates are separated by spaces
+                    sList=sep.join([str(x) for x in d['value']])
                     s+='{} {} {}'.format(sList,d['label'],d['descr'])
                 else:
                     s+=toStringVLD(d['value'],d['label'],d['descr']).strip()
@@ -716,7 +717,8 @@ class FASTInputFileBase(File):
                     s+='\n'.join('\t'.join('{}'.format(x) for x in y) for y in d['value'])
             elif d['tabType']==TABTYPE_NUM_WITH_HEADERCOM:
                 s+='! {}\n'.format(' '.join(['{:15s}'.format(s) for s in d['tabColumnNames']]))
-                s+='! {}\n'.format(' '.join(['{:15s}'.format(s) for s in d['tabUnits']]))
+                if d['label']!='AirfoilCoord': # coordinates have one header line only
+                    s+='! {}\n'.format(' '.join(['{:15s}'.format(s) for s in d['tabUnits']]))
                 s+='\n'.join('\t'.join('{:15.8e}'.format(x) for x in y) for y in d['value'])
             elif d['tabType']==TABTYPE_FIL:
                 #f.write('{} {} {}\n'.format(d['value'][0],d['tabDetect'],d['descr']))
-- 
2.43.0


From 8c553ebbfd45892f2a0b6d12c4b924b265b471e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:25 +0000
Subject: [PATCH 47/92] fix: incomplete operating points and matrices of
 linearization files were accepted

---
 weio/fast_linearization_file.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/weio/fast_linearization_file.py b/weio/fast_linearization_file.py
index 2a60e94..96cc120 100644
--- a/weio/fast_linearization_file.py
+++ b/weio/fast_linearization_file.py
@@ -86,10 +86,14 @@ class FASTLinearizationFile(File):
                     Var['Description'].append(' '.join(sp[iRot+1:]).strip())
                 if i>=n-1:
                     break
+            if len(OP)<n:
+                raise BrokenFormatError('Only {} lines instead of {} for the operating point'.format(len(OP), n))
             return OP, Var
 
         def readMat(fid, n, m):
             vals=[f.readline().strip().split() for i in np.arange(n)]
+            if any([len(v)!=m for v in vals]):
+                raise BrokenFormatError('Matrix does not have {} lines of {} values'.format(n, m))
 #             try:
             return np.array(vals).astype(float)
 #             except ValueError:
-- 
2.43.0


From 77746d8f82c9fcac40ca12309fe69d020ab1c781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:43 +0000
Subject: [PATCH 48/92] fix: HAWC2DatFile remembered that an earlier file was a
 BHAWC one, and wrote a HAWC2 file as such

---
 weio/hawc2_dat_file.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/weio/hawc2_dat_file.py b/weio/hawc2_dat_file.py
index a72527d..66f519c 100644
--- a/weio/hawc2_dat_file.py
+++ b/weio/hawc2_dat_file.py
@@ -41,8 +41,7 @@ class HAWC2DatFile(File):
             self.info['attribute_names'] = res_file.ChInfo[0]
             self.info['attribute_units'] = res_file.ChInfo[1]
             self.info['attribute_descr'] = res_file.ChInfo[2]
-            if res_file.FileFormat=='BHAWC_ASCII':
-                self.bHawc=True
+            self.bHawc = res_file.FileFormat=='BHAWC_ASCII'
         except (OSError, MemoryError):
             raise # not related to the content of the file
             #raise WrongFormatError('HAWC2 dat File {}:  '.format(self.filename)+' File Not Found:'+e.filename)
-- 
2.43.0


From 471061e993c2408086232b3a6f28fd7f986117e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:36 +0000
Subject: [PATCH 49/92] fix: the module of a FAST input file depended on
 whether the object had been looked at before

---
 weio/fast_input_file.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 8057378..378eb22 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -77,10 +77,7 @@ class FASTInputFile(File):
             return self.basefile
     @property
     def module(self):
-        if self._fixedfile is None:
-            return self.basefile.module
-        else:
-            return self._fixedfile.module
+        return self.fixedfile.module
 
     def fixedFormat(self):
         # --- Creating a dedicated Child
@@ -89,7 +86,7 @@ class FASTInputFile(File):
             return ADBladeFile.from_fast_input_file(self.basefile)
         elif 'NBlInpSt' in KEYS:
             return EDBladeFile.from_fast_input_file(self.basefile)
-        elif 'MassMatrix' in KEYS and self.module =='ExtPtfm':
+        elif 'MassMatrix' in KEYS and self.basefile.module =='ExtPtfm':
             return ExtPtfmFile.from_fast_input_file(self.basefile)
         elif 'NumCoords' in KEYS and 'InterpOrd' in KEYS:
             return ADPolarFile.from_fast_input_file(self.basefile)
-- 
2.43.0


From 7f87cfae6d2598667b501f2864b20b5325f7ce11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:42 +0000
Subject: [PATCH 50/92] fix: Bladed files were not found when their path
 contains % or characters special to glob

---
 weio/bladed_out_file.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index 99cbf1f..1852649 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -173,7 +173,8 @@ def read_bladed_output(sensorFilename, readTimeFilesOnly=False):
         return [], {}
     
     # --- Read data file
-    dataFilename = sensorFilename.replace('%','$')
+    base, ext = os.path.splitext(sensorFilename)
+    dataFilename = base + ext.replace('%','$')
 
     if isBinary(dataFilename):            # it is binary            
 
@@ -273,10 +274,10 @@ class BladedFile(File):
         basename, ext = os.path.splitext(self.filename)
         if ext.lower()=='.$pj':
             readTimeFilesOnly=True
-            searchPattern = basename + '.%[0-9][0-9]*' # find all files in the folder
+            searchPattern = glob.escape(basename) + '.%[0-9][0-9]*' # find all files in the folder
         else:
             readTimeFilesOnly=False
-            searchPattern = basename + ext.replace('$','%') # sensor file name
+            searchPattern = glob.escape(basename) + ext.replace('$','%') # sensor file name
         
         # Look for files matching pattern
         files = glob.glob(searchPattern)
-- 
2.43.0


From 70ad5f0cc643957114a540e90856c5758b9c01b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:42 +0000
Subject: [PATCH 51/92] fix: an induction file could not be read when its name
 holds no wind speed, or its directory an underscore

---
 weio/hawcstab2_ind_file.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weio/hawcstab2_ind_file.py b/weio/hawcstab2_ind_file.py
index 0646d11..5787c60 100644
--- a/weio/hawcstab2_ind_file.py
+++ b/weio/hawcstab2_ind_file.py
@@ -56,7 +56,11 @@ class HAWCStab2IndFile(File):
             raise BrokenFormatError('Ind File {}: inconsistent number of header columns and data columns.'.format(self.filename))
 
         # Extracting wind speed from filename 
-        self.wsp = float(self.filename.lower().split('_')[-1].rstrip('.ind').lstrip('u'))/1000
+        base = os.path.splitext(os.path.basename(self.filename))[0]
+        try:
+            self.wsp = float(base.lower().split('_')[-1].lstrip('u'))/1000
+        except ValueError:
+            self.wsp = np.nan # no wind speed in filename
 
     def _toDataFrame(self):
         key = '{:s} - ws={:06.3f}'.format(self.type,self.wsp)
-- 
2.43.0


From 1acbb7ba6bb50f364aeaa39807a58e4fab642c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:00 +0000
Subject: [PATCH 52/92] fix: a file with an extension that a format declares in
 upper case (.00X) was never detected

---
 weio/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/__init__.py b/weio/__init__.py
index 2bf5b95..1e55ed9 100644
--- a/weio/__init__.py
+++ b/weio/__init__.py
@@ -221,7 +221,7 @@ def detectFormat(filename, **kwargs):
     i = 0 
     while not detected and i<len(formats):
         myformat = formats[i]
-        if ext in myformat.extensions:
+        if ext in [e.lower() for e in myformat.extensions]:
             extMatch = True
         else:
             # Try patterns if present
-- 
2.43.0


From 82578ac34efd910eecf899e11a5611fdfad0e25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:39 +0000
Subject: [PATCH 53/92] fix: whether a file is binary depended on how the file
 system delivered its first bytes, and binary data whose first line looks like
 text was read as text

---
 weio/file.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/weio/file.py b/weio/file.py
index c28f78f..90b1cf9 100644
--- a/weio/file.py
+++ b/weio/file.py
@@ -156,18 +156,23 @@ class File(dict):
 # --------------------------------------------------------------------------------{
 def isBinary(filename):
     from io import open
-    with open(filename, 'r') as f:
-        try:
-            # first try to read as string
-            l = f.readline()
-            # then look for weird characters
-            for c in l:
-                code = ord(c)
-                if code<10 or (code>14 and code<31):
-                    return True
-            return False
-        except UnicodeDecodeError:
+    import codecs
+    # NOTE: the decision is based on the same bytes no matter how the file system delivers them
+    with open(filename, 'rb') as f:
+        raw = f.read(8192)
+    if b'\0' in raw:
+        return True
+    try:
+        # first try to read as string (the last character might be incomplete)
+        s = codecs.getincrementaldecoder('utf-8')().decode(raw)
+    except UnicodeDecodeError:
+        return True
+    # then look for weird characters in the first line
+    for c in s.replace('\r','\n').split('\n')[0]:
+        code = ord(c)
+        if code<10 or (code>14 and code<31):
             return True
+    return False
 
 def ascii_comp(file1,file2,bDelete=False):
     """ Compares two ascii files line by line.
-- 
2.43.0


From 7c7d4dff07624374ba43236cd87da67e2bed45f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:49 +0000
Subject: [PATCH 54/92] fix: reading only the header of a TurbSim file into an
 object kept the field of the file read before

---
 weio/turbsim_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index 919c4a5..04858fc 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -80,6 +80,8 @@ class TurbSimFile(File):
             scl[0],off[0],scl[1],off[1],scl[2],off[2] = struct.unpack('<6f' , f.read(6*4))
             nChar, = struct.unpack('<l',  f.read(4))
             info = (f.read(nChar)).decode()
+            # Nothing is kept from a file read earlier (its field, when only the header is read now)
+            self.clear()
             # Reading turbulence field
             if not header_only: 
                 u    = np.zeros((3,nt,ny,nz))
-- 
2.43.0


From 8824b45bd6928ab128e04056e754880f55bf3503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:53 +0000
Subject: [PATCH 55/92] fix: a name that does not fit in a FAST binary output
 was refused after the target had been emptied

---
 weio/fast_output_file.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index cddd6af..fe9d41d 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -453,6 +453,10 @@ def writeBinary(fileName, channels, chanNames, chanUnits, fileID=2, descStr=''):
         raise NotImplementedError("current version just works with FileID = 2")
 
     else:
+        # What cannot be stored (e.g. a name of more than 10 characters) is refused before the file is opened
+        for label in chanNames + list(chanUnits):
+            struct.pack('@10B', *([ord(char) for char in label]+ [32]*(10-len(label))))
+        struct.pack('@{}B'.format(len(descStr)), *[ord(char) for char in descStr])
         with open(fileName,'wb') as fid:
             # Notes on struct:
             # @ is used for packing in native byte order
-- 
2.43.0


From afcfb20bb091820753560c232fa2c5177c963cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:35 +0000
Subject: [PATCH 56/92] fix: writing a TurbSim time series whose header is not
 UTF-8 raised and left the target empty

---
 weio/turbsim_ts_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/turbsim_ts_file.py b/weio/turbsim_ts_file.py
index b9383bb..d20d370 100644
--- a/weio/turbsim_ts_file.py
+++ b/weio/turbsim_ts_file.py
@@ -85,7 +85,7 @@ class TurbSimTSFile(File):
         return s
 
     def _write(self):
-        with open(self.filename,'w') as f:
+        with open(self.filename,'w', errors="surrogateescape") as f: # NOTE: same as for reading
             f.write(self.toString())
 
         
-- 
2.43.0


From 5310d3835d717a93b330aa0412484fac3678b86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:35 +0000
Subject: [PATCH 57/92] fix: writing a FLEX profile whose header is not UTF-8
 raised and left the target empty

---
 weio/flex_profile_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/flex_profile_file.py b/weio/flex_profile_file.py
index 87d27d0..538bf30 100644
--- a/weio/flex_profile_file.py
+++ b/weio/flex_profile_file.py
@@ -126,7 +126,7 @@ class FLEXProfileFile(File):
         return s
 
     def _write(self):
-        with open(self.filename,'w') as f:
+        with open(self.filename,'w', errors="surrogateescape") as f: # NOTE: same as for reading
             f.write(self.toString())
 
     def __repr__(self):
-- 
2.43.0


From 58ce6d48ee26444faa154d64bb3493f98adef6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:50 +0000
Subject: [PATCH 58/92] fix: writing a HAWC2 or BHAWC output cut the
 descriptions and names of the channels

---
 weio/hawc2_dat_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/hawc2_dat_file.py b/weio/hawc2_dat_file.py
index 66f519c..a0c9092 100644
--- a/weio/hawc2_dat_file.py
+++ b/weio/hawc2_dat_file.py
@@ -129,7 +129,7 @@ class HAWC2DatFile(File):
                 f.write('{:19s}\t{:25s}\t{:25s}\t{:25s}\n'.format('Channel','Variable descriptions','Labels','Units'))
                 for chan,(label,descr,unit) in enumerate(zip(self.info['attribute_names'],self.info['attribute_descr'],self.info['attribute_units'])):
                     unit=unit.replace('(','').replace(')','').replace('[','').replace(']','')
-                    f.write('{:19s}\t{:25s}\t{:25s}\t{:25s}\n'.format(str(chan+1),descr[0:26],label[0:26],'['+unit+']'))
+                    f.write('{:19s}\t{:25s}\t{:25s}\t{:25s}\n'.format(str(chan+1),descr,label,'['+unit+']'))
             else:
 
                 f.write('________________________________________________________________________________________________________________________\n')
@@ -146,7 +146,7 @@ class HAWC2DatFile(File):
                 f.write('\n')
                 for chan,(label,descr,unit) in enumerate(zip(self.info['attribute_names'],self.info['attribute_descr'],self.info['attribute_units'])):
                     unit=unit.replace('(','').replace(')','').replace('[','').replace(']','')
-                    f.write('{:12s}{:31s}{:11s}{:s}\n'.format(str(chan+1),label[0:30],unit,descr))
+                    f.write('{:12s}{:31s}{:11s}{:s}\n'.format(str(chan+1),label[0:31],unit,descr))
                 f.write('________________________________________________________________________________________________________________________\n');
 
 class BHAWCDatFile(HAWC2DatFile):
-- 
2.43.0


From d6ba619085e2633f67be95b08b4491df00ea600a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:26 +0000
Subject: [PATCH 59/92] fix: channels of a BHAWC output were lost when the
 description of an early one holds the word channel

---
 weio/wetb/hawc2/Hawc2io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/Hawc2io.py b/weio/wetb/hawc2/Hawc2io.py
index 2bbbb1b..0f81185 100644
--- a/weio/wetb/hawc2/Hawc2io.py
+++ b/weio/wetb/hawc2/Hawc2io.py
@@ -98,10 +98,12 @@ class ReadHawc2(object):
             self.Freq = self.NrSc / self.Time
             self.t = np.linspace(0, self.Time, self.NrSc + 1)[1:]
             # --- Find line with channel info
+            iScan=iLine
             iLine=0
-            for i in np.arange(5,13):
+            for i in np.arange(iScan,13):
                 if Lines[i].lower().find('channel')>=0:
                     iLine=i+1
+                    break # NOTE: the word may also be in the description of a channel
             if iLine==0:
                 raise Exception('Cannot find the keyword "Channel"')
 
-- 
2.43.0


From 41f52cba6ba0fa702fedf3894cda594daa191c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:28 +0000
Subject: [PATCH 60/92] fix: a BHAWC sel file with fewer channels than declared
 was accepted

---
 weio/wetb/hawc2/Hawc2io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weio/wetb/hawc2/Hawc2io.py b/weio/wetb/hawc2/Hawc2io.py
index 0f81185..424806f 100644
--- a/weio/wetb/hawc2/Hawc2io.py
+++ b/weio/wetb/hawc2/Hawc2io.py
@@ -137,6 +137,8 @@ class ReadHawc2(object):
                 Description.append(sp[0]) 
                 Name.append(sp[1]) 
 
+            if len(Name)<self.NrCh:
+                raise Exception('The sel file describes fewer channels than declared')
             self.ChInfo = [Name, Unit, Description]
             self.FileFormat = 'BHAWC_ASCII'
         else:
-- 
2.43.0


From 7a4d92d509e140e05aa7194327169421878ab7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:46 +0000
Subject: [PATCH 61/92] fix: a FAST binary output silently replaced uneven
 times by equal steps, drifted with rounded times, and refused one row

---
 weio/fast_output_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index fe9d41d..8704a27 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -430,7 +430,9 @@ def writeBinary(fileName, channels, chanNames, chanUnits, fileID=2, descStr=''):
 
     time = channels[:,iTime]
     timeStart = time[0]
-    timeIncr  = time[1]-time[0]
+    timeIncr  = (time[-1]-time[0])/max(nT-1,1) # NOTE: the first step alone may be a rounded value
+    if np.any(np.abs(timeStart+timeIncr*np.arange(nT)-time) > 0.5*np.abs(timeIncr)):
+        raise NotImplementedError("current version just works with a constant time step")
     dataWithoutTime = channels[:,1:]
         
     # Compute data range, scaling and offsets to convert to int16
-- 
2.43.0


From 67d1cbc49931601d6be9e3ec59c62f0940243eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:47 +0000
Subject: [PATCH 62/92] fix: a HAWC2 output with a single scan at time zero
 could not be read

---
 weio/wetb/hawc2/Hawc2io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/wetb/hawc2/Hawc2io.py b/weio/wetb/hawc2/Hawc2io.py
index 424806f..7c88a34 100644
--- a/weio/wetb/hawc2/Hawc2io.py
+++ b/weio/wetb/hawc2/Hawc2io.py
@@ -95,7 +95,7 @@ class ReadHawc2(object):
             self.NrSc = int(temp[0])
             self.NrCh = int(temp[1])
             self.Time = float(temp[2])
-            self.Freq = self.NrSc / self.Time
+            self.Freq = self.NrSc / self.Time if self.Time!=0 else np.inf # one scan at t=0
             self.t = np.linspace(0, self.Time, self.NrSc + 1)[1:]
             # --- Find line with channel info
             iScan=iLine
@@ -149,7 +149,7 @@ class ReadHawc2(object):
             self.NrSc = int(temp[0])
             self.NrCh = int(temp[1])
             self.Time = float(temp[2])
-            self.Freq = self.NrSc / self.Time
+            self.Freq = self.NrSc / self.Time if self.Time!=0 else np.inf # one scan at t=0
             self.t = np.linspace(0, self.Time, self.NrSc + 1)[1:]
             Format = temp[3]
             # reads channel info (name, unit and description)
-- 
2.43.0


From e963ab40b76c78c6e13eac0f4ebb22c7bd4c72fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:15 +0000
Subject: [PATCH 63/92] fix: a TurbSim field with a single point in y or z, or
 a single time, could be read but not written

---
 weio/turbsim_file.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index 04858fc..d8d37ef 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -152,9 +152,11 @@ class TurbSimFile(File):
             out[k]    = np.clip(ts[k]    * scl[k] + off[k], intmin, intmin+intrng).astype(np.int16)
             outTwr[k] = np.clip(tsTwr[k] * scl[k] + off[k], intmin, intmin+intrng).astype(np.int16)
         z0 = self['z'][0]
-        dz = self['z'][1]- self['z'][0]
-        dy = self['y'][1]- self['y'][0]
-        dt = self['t'][1]- self['t'][0]
+        def step(x, default):
+            return x[1]- x[0] if len(x)>1 else default # NOTE: no step for a single point
+        dz = step(self['z'], -step(self.get('zTwr', []), -1) if nTwr>0 else 1)
+        dy = step(self['y'], 1)
+        dt = step(self['t'], self.get('dt', 1))
 
         # Providing estimates of uHub and zHub even if these fields are not used
         zHub,uHub, bHub = self.hubValues()
-- 
2.43.0


From 27aadd5f7e09f5fbe0ed62557a34f80592e9cc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:46 +0000
Subject: [PATCH 64/92] fix: a UTF-8 CSV file whose first 32 bytes are ASCII
 could not be read

---
 weio/file.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/weio/file.py b/weio/file.py
index 90b1cf9..4b2ac51 100644
--- a/weio/file.py
+++ b/weio/file.py
@@ -68,6 +68,13 @@ class File(dict):
         if raw.startswith(codecs.BOM_UTF8):
             return 'utf-8-sig'
         else:
+            try:
+                # NOTE: the rest of the file might not be ASCII, and the last character might be cut
+                if b'\0' not in raw:
+                    codecs.getincrementaldecoder('utf-8')().decode(raw)
+                    return 'utf-8'
+            except UnicodeDecodeError:
+                pass
             result = chardet.detect(raw)
             return result['encoding']
 
-- 
2.43.0


From d57879b3c712305338050d82f9d9e5159c3a6e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:06 +0000
Subject: [PATCH 65/92] fix: writing an AeroDyn polar file with several tables
 that is not UTF-8 raised and left the target empty

---
 weio/fast_input_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 378eb22..43850e0 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1597,7 +1597,7 @@ class ADPolarFile(FASTInputFileBase):
             try:
                 # Write
                 s = self.toString()
-                with open(self.filename,'w') as f:
+                with open(self.filename,'w', errors="surrogateescape") as f: # NOTE: same as for reading
                     f.write(s)
             finally:
                 # Restore labels 
-- 
2.43.0


From ce80d958e0dbba1455c2acd524ed6e39d1103911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:09 +0000
Subject: [PATCH 66/92] fix: negative values with three digits of exponent were
 joined to the previous value in TurbSim time series and ExtPtfm files

---
 weio/fast_input_file.py | 8 ++++----
 weio/turbsim_ts_file.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 43850e0..990e38e 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1780,19 +1780,19 @@ class ExtPtfmFile(FASTInputFileBase):
 
         s+='\n!Mass Matrix\n'
         s+='!Dimension: {}\n'.format(self['nDOF'])
-        s+='\n'.join(''.join('{:16.8e}'.format(x) for x in y) for y in self['MassMatrix'])
+        s+='\n'.join(''.join(' {:15.8e}'.format(x) for x in y) for y in self['MassMatrix'])
 
         s+='\n\n!Stiffness Matrix\n'
         s+='!Dimension: {}\n'.format(self['nDOF'])
-        s+='\n'.join(''.join('{:16.8e}'.format(x) for x in y) for y in self['StiffnessMatrix'])
+        s+='\n'.join(''.join(' {:15.8e}'.format(x) for x in y) for y in self['StiffnessMatrix'])
 
         s+='\n\n!Damping Matrix\n'
         s+='!Dimension: {}\n'.format(self['nDOF'])
-        s+='\n'.join(''.join('{:16.8e}'.format(x) for x in y) for y in self['DampingMatrix'])
+        s+='\n'.join(''.join(' {:15.8e}'.format(x) for x in y) for y in self['DampingMatrix'])
 
         s+='\n\n!Loading and Wave Elevation\n'
         s+='!Dimension: 1 time column -  {} force columns\n'.format(self['nDOF'])
-        s+='\n'.join(''.join('{:16.8e}'.format(x) for x in y) for y in self['Loading'])
+        s+='\n'.join(''.join(' {:15.8e}'.format(x) for x in y) for y in self['Loading'])
         return s
 
     def _writeSanityChecks(self):
diff --git a/weio/turbsim_ts_file.py b/weio/turbsim_ts_file.py
index d20d370..6beb0fa 100644
--- a/weio/turbsim_ts_file.py
+++ b/weio/turbsim_ts_file.py
@@ -76,12 +76,12 @@ class TurbSimTSFile(File):
         s+='{:^16s}{:^16s} {}\n'.format('Pointyi','Pointzi','! nPoints listed in order of increasing height')
         s+='{:^16s}{:^16s}\n'.format('(m)','(m)')
         for row in self['Points']:
-            s+=''.join(['{:16.8e}'.format(v) for v in row])+'\n'
+            s+=''.join([' {:15.8e}'.format(v) for v in row])+'\n'
 
         s+='--------Time Series-------------------------------------------------------------\n'
         s+=''.join(['{:^16s}'.format(c) for c in self.columns()])+'\n'
         s+=''.join(['{:^16s}'.format(c) for c in self.units()])+'\n'
-        s+='\n'.join(''.join('{:16.8e}'.format(x) for x in y) for y in self['data'])
+        s+='\n'.join(''.join(' {:15.8e}'.format(x) for x in y) for y in self['data'])
         return s
 
     def _write(self):
-- 
2.43.0


From d650c1ca4ce01be725bde9a971eeb2787af7baed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:12 +0000
Subject: [PATCH 67/92] fix: the span of the BeamDyn blade sections was written
 with six decimals only

---
 weio/fast_input_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 990e38e..7530ed8 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -669,7 +669,8 @@ class FASTInputFileBase(File):
             def mat_tostring(M,fmt='24.16e'):
                 return '\n'.join(['   '+' '.join(['{:24.16E}'.format(m) for m in M[i,:]]) for i in range(np.size(M,1))])
             s=''
-            s+='{:.6f}\n'.format(x)
+            span='{:.6f}'.format(x)
+            s+='{}\n'.format(span if float(span)==x else x)
             s+=mat_tostring(K)
             #s+=np.array2string(K)
             s+='\n'
-- 
2.43.0


From a7e68251f80f00eff5bc9c509e5d07486f692ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:15 +0000
Subject: [PATCH 68/92] fix: an AeroDyn polar file without unsteady
 aerodynamics data could not be converted to a dataframe

---
 weio/fast_input_file.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 7530ed8..6e5e572 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -1619,11 +1619,13 @@ class ADPolarFile(FASTInputFileBase):
             alpha = df['Alpha_[deg]'].values*np.pi/180.
             Cl    = df['Cl_[-]'].values
             Cd    = df['Cd_[-]'].values
-            Cd0   = self['Cd0'+labOffset]
             # Cn (with or without Cd0)
-            Cn1 = Cl*np.cos(alpha)+ (Cd-Cd0)*np.sin(alpha) 
             Cn  = Cl*np.cos(alpha)+ Cd*np.sin(alpha) 
             df['Cn_[-]'] = Cn
+            if self.getIDSafe('Cd0'+labOffset)<0:
+                continue # no unsteady aerodynamics data (InclUAdata is False)
+            Cd0   = self['Cd0'+labOffset]
+            Cn1 = Cl*np.cos(alpha)+ (Cd-Cd0)*np.sin(alpha) 
             df['Cn_Cd0off_[-]'] = Cn1
 
             CnLin = self['C_nalpha'+labOffset]*(alpha-self['alpha0'+labOffset]*np.pi/180.)
-- 
2.43.0


From fa5bdebf278513dd49ab0f5a004130b6f9ffccac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:18 +0000
Subject: [PATCH 69/92] fix: blanks within quoted strings of FAST input files
 were lost, or taken as separators

---
 weio/fast_input_file.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 6e5e572..1439b81 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -989,6 +989,10 @@ def cleanLine(l):
     l = l.strip()
     return l
 
+def splitQuoted(l):
+    # split at blanks, except the ones that are within quotes
+    return re.findall(r'"[^"]*"|\S+', l)
+
 def cleanAfterChar(l,c):
     # remove whats after a character
     n = l.find(c);
@@ -1066,8 +1070,13 @@ def parseFASTInputLine(line_raw,i,allowSpaceSeparatedList=False):
             iNext=0
         else:
             # It's not a list, we just use space as separators
-            splits=line.split(' ')
-            _merge_value(splits)
+            quoted=re.match(r'\s*("[^"]*")(?=\s|$)', line_raw)
+            if quoted:
+                # NOTE: blanks within quotes belong to the value
+                splits=[quoted.group(1)]+line_raw[quoted.end():].split()
+            else:
+                splits=line.split(' ')
+                _merge_value(splits)
             s=splits[0]
 
             if strIsInt(s):
@@ -1249,7 +1258,7 @@ def parseFASTNumTable(filename,lines,n,iStart,nHeaders=2,tableType='num',nOffset
                 l = lines[i]
                 l = cleanAfterChar(l,'!')
                 l = cleanAfterChar(l,'#')
-                v = l.split()
+                v = splitQuoted(l)
                 if l.startswith('---'):
                     raise BrokenFormatError('Error reading line {} while reading table. Is the variable `{}` set correctly?'.format(iStart+i+1, varNumLines))
                 if len(v) != nCols:
@@ -1289,7 +1298,7 @@ def parseFASTFilTable(lines,n,iStart):
         if len(lines)!=n:
             raise WrongFormatError('Not enough lines in table: {} lines instead of {}'.format(len(lines),n))
         for i in range(n):
-            l = lines[i].split()
+            l = splitQuoted(lines[i])
             #print(l[0].strip())
             Tab.append(l[0].strip())
             
-- 
2.43.0


From 735c634b55508ecd12e29fc1f932f7598d154303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:14 +0000
Subject: [PATCH 70/92] fix: quotes around the column names of a CSV file were
 taken as part of the names

---
 weio/csv_file.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index 6628779..8851150 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -3,6 +3,7 @@ from builtins import map, range, chr, str
 from io import open
 from future import standard_library
 standard_library.install_aliases()
+import csv
 import os
 
 from .file import File, WrongFormatError
@@ -96,6 +97,11 @@ class CSVFile(File):
         def split(s):
             if s is None:
                 return []
+            if s.find('"')>=0 and self.sep is not None and (self.sep==r'\s+' or len(self.sep)==1):
+                # Quotes are not part of the names, and may contain the separator (same convention as for the data)
+                sep = ' ' if self.sep==r'\s+' else self.sep
+                s = s.replace('\t',' ') if sep==' ' else s
+                return [c.strip() for c in next(csv.reader([s.strip()], delimiter=sep, skipinitialspace=True))]
             if self.sep==r'\s+':
                 return s.strip().split()
             else:
-- 
2.43.0


From daddfce3fb0e0676a8551ce2235510bd44182cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:47 +0000
Subject: [PATCH 71/92] fix: negative values with three digits of exponent were
 joined to the previous value in HAWC2 st files

---
 weio/hawc2_st_file.py      | 2 +-
 weio/wetb/hawc2/st_file.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/hawc2_st_file.py b/weio/hawc2_st_file.py
index 0b484f9..57591d3 100644
--- a/weio/hawc2_st_file.py
+++ b/weio/hawc2_st_file.py
@@ -41,7 +41,7 @@ class HAWC2StFile(File):
         self.data = StFile(self.filename)
 
     def _write(self):
-        self.data.save(self.filename, precision='%15.07e', encoding='utf-8')
+        self.data.save(self.filename, precision=' %14.07e', encoding='utf-8')
 
     def __repr__(self):
         s='<{} object> with attribute `data`\n'.format(type(self).__name__)
diff --git a/weio/wetb/hawc2/st_file.py b/weio/wetb/hawc2/st_file.py
index 91497a0..c228dca 100644
--- a/weio/wetb/hawc2/st_file.py
+++ b/weio/wetb/hawc2/st_file.py
@@ -127,7 +127,7 @@ class StFile(object):
             column = self.cols.index(k)
             self.main_data_sets[mset_nr][set_nr][:, column] = v
 
-    def save(self, filename, precision='%15.07e', encoding='utf-8'):
+    def save(self, filename, precision=' %14.07e', encoding='utf-8'):
         """Save all data defined in main_data_sets to st file.
         """
 
-- 
2.43.0


From 7869170aa77f9419b4d8a7d5e8c3534c57c0cca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:14 +0000
Subject: [PATCH 72/92] fix: 16-bit values were truncated instead of rounded
 when written, so that they drifted each time a file was read and written
 again

---
 weio/fast_output_file.py | 3 ++-
 weio/turbsim_file.py     | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 8704a27..e5eceed 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -493,7 +493,8 @@ def writeBinary(fileName, channels, chanNames, chanUnits, fileID=2, descStr=''):
             # Pack data
             packedData=np.zeros((nT, nChannels), dtype=np.int16)
             for iChan in range(nChannels):
-                packedData[:,iChan] = np.clip( ColScl[iChan]*dataWithoutTime[:,iChan]+ColOff[iChan], int16Min, int16Max)
+                # NOTE: nearest integer (as OpenFAST), so that values do not drift when a file is read and written again
+                packedData[:,iChan] = np.clip( np.round(ColScl[iChan]*dataWithoutTime[:,iChan]+ColOff[iChan]), int16Min, int16Max)
 
             # Write data
             fid.write(struct.pack('@{}h'.format(packedData.size), *packedData.flatten()))
diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index d8d37ef..787ead5 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -149,8 +149,9 @@ class TurbSimFile(File):
                 scl[k] = intrng / (all_max-all_min)
                 off[k] = intmin - scl[k] * all_min
             # NOTE: scl and off are single precision, clipping so that the integers cannot wrap around
-            out[k]    = np.clip(ts[k]    * scl[k] + off[k], intmin, intmin+intrng).astype(np.int16)
-            outTwr[k] = np.clip(tsTwr[k] * scl[k] + off[k], intmin, intmin+intrng).astype(np.int16)
+            #       Using the nearest integer, so that values do not drift when a file is read and written again
+            out[k]    = np.clip(np.round(ts[k]    * scl[k] + off[k]), intmin, intmin+intrng).astype(np.int16)
+            outTwr[k] = np.clip(np.round(tsTwr[k] * scl[k] + off[k]), intmin, intmin+intrng).astype(np.int16)
         z0 = self['z'][0]
         def step(x, default):
             return x[1]- x[0] if len(x)>1 else default # NOTE: no step for a single point
-- 
2.43.0


From 9cfbfc63962d05444193b03d18c39984443c38ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:32 +0000
Subject: [PATCH 73/92] fix: a FAST numeric table holding NaN could be read but
 not written

---
 weio/fast_input_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 1439b81..5115dfe 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -704,7 +704,7 @@ class FASTInputFileBase(File):
                     newline=''
                 if np.size(d['value'],0) > 0 :
                     s+=newline
-                    s+='\n'.join('\t'.join( ('{:15.0f}'.format(x) if int(x)==x else '{:15.8e}'.format(x) )  for x in y) for y in d['value'])
+                    s+='\n'.join('\t'.join( ('{:15.0f}'.format(x) if np.floor(x)==x else '{:15.8e}'.format(x) )  for x in y) for y in d['value'])
             elif d['tabType']==TABTYPE_MIX_WITH_HEADER:
                 s+='{}'.format(' '.join(['{:15s}'.format(s) for s in d['tabColumnNames']]))
                 if d['tabUnits'] is not None:
-- 
2.43.0


From 85003533d211bc200ba1a85393f53d86871cbd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:06 +0000
Subject: [PATCH 74/92] fix: the first row of FLEX matrices without a header
 was lost, and isolated blade matrices were not read

---
 weio/flex_doc_file.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/weio/flex_doc_file.py b/weio/flex_doc_file.py
index 9146eef..667743c 100644
--- a/weio/flex_doc_file.py
+++ b/weio/flex_doc_file.py
@@ -54,7 +54,7 @@ class FLEXDocFile(File):
         ]
 
         ArraysNoHeader=[
-        '#Blade_IsolatedMassMatrix'
+        '#Blade_IsolatedMassMatrix',
         '#Blade_IsolatedStiffnessMatrix',
         '#Blade_IsolatedDampingMatrix',
         '#Foundation_IsolatedMassMatrix',
@@ -130,8 +130,6 @@ class FLEXDocFile(File):
                 elif sp[0] in ArraysNoHeader:
                     array_lines=[]
                     i=i+1
-                    header=lines[i]
-                    i=i+1
                     while i<len(lines) and len(lines[i])>0 and lines[i][0]!='#':
                         array_lines.append(np.array([float(v) for v in lines[i].split()]))
                         i=i+1
-- 
2.43.0


From 08e64900fc56fcd889b130f9791b3bcd73afde0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:06 +0000
Subject: [PATCH 75/92] fix: FLEX values with units, strings and file names
 were read as wrong numbers

---
 weio/flex_doc_file.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/weio/flex_doc_file.py b/weio/flex_doc_file.py
index 667743c..19cd973 100644
--- a/weio/flex_doc_file.py
+++ b/weio/flex_doc_file.py
@@ -149,12 +149,19 @@ class FLEXDocFile(File):
                     key=keys[0][1:]
                     subkey = '_'.join(keys[1:])
                     values= ' '.join(sp[1:])
-                    try:
-                        dat= np.array(rx.findall(values)).astype(float)
-                        if len(dat)==1:
-                            dat=dat[0]
-                    except:
+                    # Numbers before the units and comments, or a string
+                    dat=[]
+                    for v in sp[1:]:
+                        try:
+                            dat.append(float(v))
+                        except ValueError:
+                            break
+                    if len(dat)==0:
                         dat = values
+                    elif len(dat)==1:
+                        dat = dat[0]
+                    else:
+                        dat = np.array(dat)
 
                     if len(key.strip())>0:
                         if len(subkey)==0:
-- 
2.43.0


From 7d588e686e2a9a1abd7a015d67820a8086153a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:06 +0000
Subject: [PATCH 76/92] fix: a FAST input file with a negative integer on its
 third line could not be read

---
 weio/fast_input_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 5115dfe..8bcdd92 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -857,6 +857,8 @@ class FASTInputFileBase(File):
         if not strIsInt(L3[0]):
             return False
         nTables=int(L3[0])
+        if nTables<1:
+            return False
         # Reading table ID
         L4 = lines[3].strip().split()
         if len(L4)<=nTables:
-- 
2.43.0


From b130295ac08f9348fafb3c65c1036fdd14992711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:06 +0000
Subject: [PATCH 77/92] fix: the comment of FAST blade files was read as a
 value and a label, so that most of it was lost

---
 weio/fast_input_file.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 8bcdd92..9784f6f 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -190,6 +190,16 @@ class FASTInputFileBase(File):
         self.hasNodal = hasNodal
         self.module   = module
         self.filename = filename
+        self._setComments()
+
+    def _setComments(self):
+        """ Comment lines might have been read as "value label description" lines """
+        for i in self._IComment:
+            if i<len(self.data) and not self.data[i]['isComment']:
+                com = self.data[i]['line']
+                self.data[i] = getDict()
+                self.data[i]['isComment'] = True
+                self.data[i]['value']     = com
 
     def keys(self):
         self.labels = [ d['label'] for i,d in enumerate(self.data) if (not d['isComment']) and (i not in self._IComment)]
@@ -306,6 +316,7 @@ class FASTInputFileBase(File):
             if os.stat(self.filename).st_size == 0:
                 raise EmptyFileError('File is empty:',self.filename)
             self._read()
+            self._setComments()
         else:  
             raise Exception('No filename provided')
 
@@ -1019,6 +1030,7 @@ def _merge_value(splits):
 
 def parseFASTInputLine(line_raw,i,allowSpaceSeparatedList=False):
     d = getDict()
+    d['line'] = line_raw
     #print(line_raw)
     try:
         # preliminary cleaning (Note: loss of formatting)
@@ -1671,6 +1683,9 @@ class ADPolarFile(FASTInputFileBase):
         for i,com in zip(self._IComment, splits):
             self.data[i]['value'] = '! ' +com
 
+    def _setComments(self):
+        pass # comment lines start with "!", they are detected when reading
+
     @property
     def _IComment(self):
         """ return indices of comment line"""
-- 
2.43.0


From c6d2a1cf615bb1c343367d8112305cb2e77a73e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:06 +0000
Subject: [PATCH 78/92] fix: a FAST list of a single file was written with a
 blank line that is read as something else

---
 weio/fast_input_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 9784f6f..575782a 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -734,8 +734,8 @@ class FASTInputFileBase(File):
                 if d['label']=='KDAdd':
                     s+='\n'.join(d['value']) # these lines already have their own labels and descriptions
                 else:
-                    s+='{} {} {}\n'.format(d['value'][0],d['label'],d['descr']) # TODO?
-                    s+='\n'.join(fil for fil in d['value'][1:])
+                    s+='{} {} {}'.format(d['value'][0],d['label'],d['descr']) # TODO?
+                    s+=''.join('\n'+fil for fil in d['value'][1:])
             elif d['tabType']==TABTYPE_NUM_BEAMDYN:
                 # TODO use dedicated sub-class
                 data = d['value']
-- 
2.43.0


From 3151f6063afb4867c104e834a337f9a2d9e195a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:48 +0000
Subject: [PATCH 79/92] fix: an object that read a SubDyn summary file kept
 what a previous file contained

---
 weio/fast_summary_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/fast_summary_file.py b/weio/fast_summary_file.py
index ce4a88d..86a42e0 100644
--- a/weio/fast_summary_file.py
+++ b/weio/fast_summary_file.py
@@ -60,6 +60,7 @@ class FASTSummaryFile(File):
 
         with open(self.filename, 'r', errors="surrogateescape") as fid:
             header= readFirstLines(fid, 4)
+        self.clear() # removing what a previous file contained
         if any(['subdyn' in s.lower() for s in header]):
             self['module']='SubDyn'
             readSubDynSum(self)
-- 
2.43.0


From 24875fa40d346a8a1b4cad332fd4c927e5694e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:39 +0000
Subject: [PATCH 80/92] fix: the SubDyn file of a FAST deck was read when only
 HydroDyn was asked for, and not when SubDyn was

---
 weio/fast_input_deck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_deck.py b/weio/fast_input_deck.py
index 1153ca5..bbd318f 100644
--- a/weio/fast_input_deck.py
+++ b/weio/fast_input_deck.py
@@ -275,7 +275,7 @@ class FASTInputDeck(dict):
 
             # SubDyn
             if self.fst_vt['Fst']['CompSub'] == 1:
-                self.fst_vt['SubDyn'] = self._read(self.fst_vt['Fst']['SubFile'],'HD')
+                self.fst_vt['SubDyn'] = self._read(self.fst_vt['Fst']['SubFile'],'SD')
 
             # Mooring
             if self.fst_vt['Fst']['CompMooring']==1:
-- 
2.43.0


From 10d175a3a07e1bcea28440b347c8d9db52a0db07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:39 +0000
Subject: [PATCH 81/92] fix: a FAST deck read a polar as missing when the disk
 failed

---
 weio/fast_input_deck.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weio/fast_input_deck.py b/weio/fast_input_deck.py
index bbd318f..8285e43 100644
--- a/weio/fast_input_deck.py
+++ b/weio/fast_input_deck.py
@@ -120,7 +120,9 @@ class FASTInputDeck(dict):
                 af_filename = os.path.join(baseDir,af_filename).replace('"','')
                 try: 
                     polar = self._read(af_filename, 'AF')
-                except:
+                except (OSError, MemoryError):
+                    raise # not a problem of the polar
+                except Exception:
                     polar=None
                     print('[FAIL] reading polar {}'.format(af_filename))
                 self.fst_vt['af_data'].append(polar)
-- 
2.43.0


From e0dc862b83037276277add9a022c63c2dc0b3e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:39 +0000
Subject: [PATCH 82/92] fix: a FAST deck that was read again kept modules and
 airfoil coordinates of the previous one

---
 weio/fast_input_deck.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/weio/fast_input_deck.py b/weio/fast_input_deck.py
index 8285e43..5626adb 100644
--- a/weio/fast_input_deck.py
+++ b/weio/fast_input_deck.py
@@ -116,6 +116,7 @@ class FASTInputDeck(dict):
             #    self.fst_vt['AeroDynBlade'].append(self._read(bld_file,'ADbld'))
             # Polars
             self.fst_vt['af_data']=[] # TODO add to "AeroDyn"
+            self.fst_vt['ac_data']=[]
             for afi, af_filename in enumerate(self.fst_vt['AeroDyn15']['AFNames']):
                 af_filename = os.path.join(baseDir,af_filename).replace('"','')
                 try: 
@@ -223,6 +224,16 @@ class FASTInputDeck(dict):
         if filename is not None:
             self.filename = filename
 
+        # Removing what a previous deck contained
+        self.inputfiles = {}
+        for k in self.fst_vt.keys():
+            self.fst_vt[k] = None
+        self.fst_vt['description'] = ''
+        self.fst_vt['af_data']     = []
+        self.fst_vt['ac_data']     = []
+        self.AD                    = None
+        self.ADversion             = ''
+
         # Read OpenFAST files
         self.fst_vt['Fst'] = self._read(self.FAST_InputFile, 'Fst')
         if self.fst_vt['Fst'] is None:
-- 
2.43.0


From e85064099fbefb44887b574b61955bd5d5cf674b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:39 +0000
Subject: [PATCH 83/92] fix: a FAST deck was written with the AeroDyn file as
 its ServoDyn file

---
 weio/fast_input_deck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_deck.py b/weio/fast_input_deck.py
index 5626adb..8acfed9 100644
--- a/weio/fast_input_deck.py
+++ b/weio/fast_input_deck.py
@@ -384,7 +384,7 @@ class FASTInputDeck(dict):
         fst['BDBldFile(3)'] = '"' + os.path.basename(filename_BD) + '"'
         fst['InflowFile']   = '"' + os.path.basename(filename_IW) + '"'
         fst['AeroFile']     = '"' + os.path.basename(filename_AD) + '"'
-        fst['ServoFile']    = '"' + os.path.basename(filename_AD) + '"'
+        fst['ServoFile']    = '"' + os.path.basename(filename_SvD) + '"'
         fst['HydroFile']    = '"' + os.path.basename(filename_HD) + '"'
         fst['SubFile']      = '"' + os.path.basename(filename_SD) + '"'
         fst['MooringFile']  = '"' + os.path.basename(filename_MD) + '"'
-- 
2.43.0


From b2b6cbb76b90e1fcbd5238aeb8d2d6a016ba7b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:40 +0000
Subject: [PATCH 84/92] fix: CactusFile.toDataFrame worked only once, and
 altered the data that was read

---
 weio/cactus_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/cactus_file.py b/weio/cactus_file.py
index 47b459a..e278b49 100644
--- a/weio/cactus_file.py
+++ b/weio/cactus_file.py
@@ -184,6 +184,7 @@ class CactusFile(File):
         """ Convert to similar labels as OpenFAST"""
         if df is None:
             return None
+        df = df.copy() # the data that was read is kept as is
         nRot      = self['configinputs']['nr']
         nPerRot   = self['configinputs']['nti']
         TSR       = self.TSR
-- 
2.43.0


From ca30f899a60ca2a370d21dc5180ae24e5da188af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:34 +0000
Subject: [PATCH 85/92] fix: TurbSimFile.fromMannBox kept the tower points of
 the field it replaces

---
 weio/turbsim_file.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index 787ead5..0999fbf 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -700,8 +700,9 @@ class TurbSimFile(File):
         # TODO
         self['ID'] = 7 # ...
         self['info'] = 'Converted from MannBox fields {:s}.'.format(time.strftime('%d-%b-%Y at %H:%M:%S', time.localtime()))
-#         self['zTwr'] = np.array([])
-#         self['uTwr'] = np.array([])
+        # The tower points of the field this one replaces, if any, are not part of it
+        self['zTwr'] = np.array([])
+        self['uTwr'] = np.zeros((3, nt, 0))
         self['zRef'] = None
         self['uRef'] = None
         self['zRef'], self['uRef'], bHub = self.hubValues()
-- 
2.43.0


From 752f6ce65e3496679dc9a5e9155e485ca526705d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:37 +0000
Subject: [PATCH 86/92] fix: TurbSimFile.makePeriodic lost the field when it
 failed

---
 weio/turbsim_file.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index 0999fbf..7ad3805 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -510,25 +510,25 @@ class TurbSimFile(File):
     def makePeriodic(self):
         """ Make the box periodic in the streamwise direction by mirroring it """
         nDim, nt0, ny, nz = self['u'].shape
-        u = self['u'].copy()
-        del self['u']
+        u = self['u']
 
+        # NOTE: the fields are replaced at the end, they would be lost if an error occurs before
         nt = 2*len(self['t'])-2
         dt = self['t'][1]- self['t'][0]
-        self['u']  = np.zeros((nDim,nt,ny,nz))
-        self['u'][:,:nt0,:,:] = u
-        self['u'][:,nt0:,:,:] = np.flip(u[:,1:-1,:,:],axis=1)
-        self['t'] = np.arange(nt)*dt
+        new = {}
+        new['u']  = np.zeros((nDim,nt,ny,nz))
+        new['u'][:,:nt0,:,:] = u
+        new['u'][:,nt0:,:,:] = np.flip(u[:,1:-1,:,:],axis=1)
+        new['t'] = np.arange(nt)*dt
         if 'uTwr' in self.keys():
-            _, _, nTwr = self['uTwr'].shape
-            uTwr = self['uTwr'].copy()
-            del self['uTwr']
-            # empty tower for now
-            self['uTwr'] = np.zeros((nDim,nt,nTwr))
-            self['uTwr'][:,:nt0,:] = uTwr
-            self['uTwr'][:,nt0:,:] = np.flip(uTwr[:,1:-1,:],axis=1)
-
-        self['ID']=8 # Periodic
+            uTwr = self['uTwr']
+            _, _, nTwr = uTwr.shape
+            new['uTwr'] = np.zeros((nDim,nt,nTwr))
+            new['uTwr'][:,:nt0,:] = uTwr
+            new['uTwr'][:,nt0:,:] = np.flip(uTwr[:,1:-1,:],axis=1)
+
+        new['ID']=8 # Periodic
+        self.update(new)
 
 
     def checkPeriodic(self, sigmaTol=1.5, aTol=0.5):
-- 
2.43.0


From 06ddd347b5add6452103d0f19161badf0011f1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:21 +0000
Subject: [PATCH 87/92] fix: TurbSimFile.fromMannBox lost the field when the
 boxes do not match

---
 weio/turbsim_file.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index 7ad3805..71ed87b 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -687,12 +687,13 @@ class TurbSimFile(File):
         if y[0]>y[-1]:
             raise Exception('y is assumed to go from - to +')
 
-        self['u']=np.zeros((3, nt, ny, nz))
-        self['u'][0,:,:,:] = u 
-        self['u'][1,:,:,:] = v
-        self['u'][2,:,:,:] = w
+        field=np.zeros((3, nt, ny, nz)) # NOTE: not in self yet, in case the boxes do not match
+        field[0,:,:,:] = u
+        field[1,:,:,:] = v
+        field[2,:,:,:] = w
         if addU is not None:
-            self['u'][0,:,:,:] += addU
+            field[0,:,:,:] += addU
+        self['u']  = field
         self['t']  = t
         self['y']  = y
         self['z']  = z
-- 
2.43.0


From 8fd7d6d8d83f0acd69a6a8d4a8cdbe6edad111cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:39 +0000
Subject: [PATCH 88/92] fix: CSVFile could not read a single line of data below
 a comment line

---
 weio/csv_file.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index 8851150..9695922 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -176,13 +176,14 @@ class CSVFile(File):
             try:
                 with open(self.filename,'r',encoding=self.encoding) as f:
                     dummy=[next(f).strip() for x in range(iStartLine)]
-                    head=[next(f).strip() for x in range(2)]
+                    head=[next(f).strip()]
+                    head+=[l.strip() for l,_ in zip(f,range(1))] # NOTE: there may be one line only
                 # comma, semi columns or tab
-                if head[1].find(',')>=0: # NOTE: the first value may be missing
+                if head[-1].find(',')>=0: # NOTE: the first value may be missing
                     self.sep=','
-                elif head[1].find(';')>=0:
+                elif head[-1].find(';')>=0:
                     self.sep=';'
-                elif head[1].find('\t')>0:
+                elif head[-1].find('\t')>0:
                     self.sep='\t'
                 else:
                     self.sep=r'\s+'
-- 
2.43.0


From e901524bd31f50f58bb9d30d3d75d756451cb64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:16 +0000
Subject: [PATCH 89/92] fix: graph: nodeIDs2ElementIDs was not initialised, and
 adding nodes or elements left the connectivity that was looked at before

---
 weio/tools/graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weio/tools/graph.py b/weio/tools/graph.py
index e924ef1..775d5ad 100644
--- a/weio/tools/graph.py
+++ b/weio/tools/graph.py
@@ -168,13 +168,14 @@ class GraphModel(object):
         self.Modes   = []
         self.Motions = []
         # Optimization variables
-        self._nodeIDs2Elements   = {} # dictionary with key NodeID and value list of ElementID
+        self._nodeIDs2ElementIDs = {} # dictionary with key NodeID and value list of ElementID
         self._nodeIDs2Elements   = {} # dictionary with key NodeID and value list of elements
         self._elementIDs2NodeIDs = {} # dictionary with key ElemID and value list of nodes IDs
         self._connectivity =[]# 
 
     def addNode(self,node):
         self.Nodes.append(node)
+        self.connecticityHasChanged()
 
     def addElement(self,elem):
         # Giving nodes to element if these were not provided
@@ -183,6 +184,7 @@ class GraphModel(object):
         if elem.propIDs is not None:
             elem.nodeProps=[self.getNodeProperty(elem.propset, i) for i in elem.propIDs]
         self.Elements.append(elem)
+        self.connecticityHasChanged()
 
     # --- Getters
     def getNode(self, nodeID):
-- 
2.43.0


From 33aa984267077ce3eca1278deeba36f04f95b872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:16 +0000
Subject: [PATCH 90/92] fix: HydroDyn graph: depth-based and member-based
 coefficients (shifted by one column) and marine growth could not be converted

---
 weio/fast_input_file_graph.py | 4 ++--
 weio/tools/graph.py           | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/weio/fast_input_file_graph.py b/weio/fast_input_file_graph.py
index eccc069..c43dc73 100644
--- a/weio/fast_input_file_graph.py
+++ b/weio/fast_input_file_graph.py
@@ -177,7 +177,7 @@ def hydrodynToGraph(hd):
         Graph.addMiscPropertySet('MemberCoefs')
         for ip,P in enumerate(hd['MemberProp']):
             # MemberID    MemberCd1     MemberCd2    MemberCdMG1   MemberCdMG2    MemberCa1     MemberCa2    MemberCaMG1   MemberCaMG2    MemberCp1     MemberCp2    MemberCpMG1   MemberCpMG2   MemberAxCd1   MemberAxCd2  MemberAxCdMG1 MemberAxCdMG2  MemberAxCa1   MemberAxCa2  MemberAxCaMG1 MemberAxCaMG2  MemberAxCp1  MemberAxCp2   MemberAxCpMG1   MemberAxCpMG2
-            prop = Property(ID=ip+1, MemberID=P[0], Cd1=P[1], Cd2=P[2], CdMG1=P[3], CdMG2=P[4], Ca1=P[5], Ca2=P[6], CaMG1=P[7], CaMG2=P[8], Cp1=P[9], Cp2=P[10], CpMG1=P[11], CpMG2=P[12], AxCd1=P[14], AxCd2=P[15], axCdMG1=P[16], axCdMG2=P[17], AxCa1=P[18], AxCa2=P[19], AxCaMG1=P[20], AxCaMG2=P[21], AxCp1=P[22], AxCp2=P[23])
+            prop = Property(ID=ip+1, MemberID=P[0], Cd1=P[1], Cd2=P[2], CdMG1=P[3], CdMG2=P[4], Ca1=P[5], Ca2=P[6], CaMG1=P[7], CaMG2=P[8], Cp1=P[9], Cp2=P[10], CpMG1=P[11], CpMG2=P[12], AxCd1=P[13], AxCd2=P[14], AxCdMG1=P[15], AxCdMG2=P[16], AxCa1=P[17], AxCa2=P[18], AxCaMG1=P[19], AxCaMG2=P[20], AxCp1=P[21], AxCp2=P[22], AxCpMG1=P[23], AxCpMG2=P[24])
             Graph.addMiscProperty('MemberCoefs',prop)
     # ---
     if 'FillGroups' in hd.keys():
@@ -196,7 +196,7 @@ def hydrodynToGraph(hd):
             # MGDpth     MGThck       MGDens
             # (m)        (m)         (kg/m^3)
             prop = Property(ID=ip+1, MGDpth=P[0], MGThck=P[1],  MGDens=P[2])
-            Graph.addMiscProperty('FillGroups',prop)
+            Graph.addMiscProperty('MG',prop)
 
     # --- Nodes
     Nodes     = hd['Joints']
diff --git a/weio/tools/graph.py b/weio/tools/graph.py
index 775d5ad..ea6bb3d 100644
--- a/weio/tools/graph.py
+++ b/weio/tools/graph.py
@@ -288,7 +288,7 @@ class GraphModel(object):
         self.ElemPropertySets[setname].append(prop)
 
     def addMiscProperty(self, setname, prop):
-        if not isinstance(prop, ElemProperty):
+        if not isinstance(prop, Property):
             print(type(prop))
             raise Exception('Property needs to inherit from Property')
         self.MiscPropertySets[setname].append(prop)
-- 
2.43.0


From b109c183aa79118289053ffa83095bcd52696e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:16 +0000
Subject: [PATCH 91/92] fix: SubDyn summary graph: area and density were given
 as Young's and shear modulus of the elements

---
 weio/fast_input_file_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file_graph.py b/weio/fast_input_file_graph.py
index c43dc73..60b98a6 100644
--- a/weio/fast_input_file_graph.py
+++ b/weio/fast_input_file_graph.py
@@ -266,7 +266,7 @@ def subdynSumToGraph(data):
         nodeIDs=[int(E[1]),int(E[2])]
         #  shear_[-]       Ixx_[m^4]       Iyy_[m^4]       Jzz_[m^4]          T0_[N]
         D = np.sqrt(E[7]/np.pi)*4 # <<< Approximation basedon area TODO use I as well
-        elem= Element(int(E[0]), nodeIDs, Type=int(E[5]), Area=E[7], rho=E[8], E=E[7], G=E[8], D=D)
+        elem= Element(int(E[0]), nodeIDs, Type=int(E[5]), Area=E[7], rho=E[8], E=E[9], G=E[10], D=D)
         elem.data['object']='cylinder'
         elem.data['color'] = type2Color[int(E[5])]
         Graph.addElement(elem)
-- 
2.43.0


From 7c63f5efff451db64fc33cd561a669e8dec3b14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:16 +0000
Subject: [PATCH 92/92] fix: graph: a failed write of the JSON file was
 followed by a second one into the same file, and reported as success

---
 weio/tools/graph.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/weio/tools/graph.py b/weio/tools/graph.py
index ea6bb3d..ffd22cd 100644
--- a/weio/tools/graph.py
+++ b/weio/tools/graph.py
@@ -606,15 +606,10 @@ class GraphModel(object):
             import json
             from io import open
             jsonFile=outfile
+            s = json.dumps(d, ensure_ascii=False)
             with open(jsonFile, 'w', encoding='utf-8') as f:
                 #f.write(to_json(d))
-                try:
-                    #f.write(unicode(json.dumps(d, ensure_ascii=False))) #, indent=2)
-                    #f.write(json.dumps(d, ensure_ascii=False)) #, indent=2)
-                    f.write(json.dumps(d, ensure_ascii=False))
-                except:
-                    print('>>> FAILED')
-                    json.dump(d, f, indent=0) 
+                f.write(s)
         return d
 
 # 
-- 
2.43.0

