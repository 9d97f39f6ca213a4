From 852df127fee1804ce231aefefce2083123bdd0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:04 +0000
Subject: [PATCH 01/18] fix: restart Davidson on the size of the search space,
 not on the number of rows

The search space was thrown away at every step (krylov_basis.shape[0] is the dimension of
the matrix), so that the procedure could cycle until stp without converging or settle on
excited states.
---
 davidson.py | 782 ++++++++++++++++++++++++++--------------------------
 1 file changed, 391 insertions(+), 391 deletions(-)

diff --git a/davidson.py b/davidson.py
index 39d2c71..e3ecf0b 100644
--- a/davidson.py
+++ b/davidson.py
@@ -1,391 +1,391 @@
-import math as mp
-import numpy as np
-import numpy.linalg as lin
-np.set_printoptions(linewidth=1000)
-import scipy.sparse as sp
-import scipy.sparse.linalg as slin
-
-import copy
-
-import interactions as itr
-
-from tqdm import tqdm, trange # Install tqdm via pip
-
-class Diagonalization :
-    """
-    Class containing parameters for the diagonalization procedure.
-    """
-    def __init__(self, nb_val, stp, tol, dim_max, initial_guess=None):
-        """
-        Args:
-            nb_val (int): the number of lowest eigenstates to compute
-            stp (int): maximum number of steps
-            tol (float): tolerance for the stopping criteria
-            dim_max (int): limit to the dimension of the search space
-            initial_guess (np.array): the initial guess for the eigenstates
-        """
-        self.nb_val = nb_val
-        self.stp = int(stp)
-        self.tol = tol
-        self.dim_max = dim_max
-        self.initial_guess = initial_guess
-
-class Eigenstates :
-    """
-    Class describing the elements of a list of eigenstates.
-    """
-    def __init__(self, eigvals, spins, eigvects):
-        """
-        Args:
-            eigvals (list<float>): the list of eigenvalues
-            spins (list<float>): the list of spins of the corresponding eigenvectors
-            eigvects (list<np.array>): the list of corresponding eigenvectors
-        """
-        self.eigvals = eigvals
-        self.spins = spins
-        self.eigvects = eigvects
-
-### Davidson algorithm - projections onto unexplored eigenspaces
-
-def davidson_algorithm(A,stp,tol,prec):
-    """
-    Davidson algorithm, yield the lowest eigenstate of the matrix A.
-    Args:
-        A (np.array): diagonalizable matrix
-        stp (int): maximal number of steps
-        tol (float): tolerance for the stopping criteria
-        prec (float): expected precision of the final eigenstate
-    """
-    n = A.shape[0]
-    v0 = np.random.random((n,1))
-    V = np.array(v0)
-    H = np.matmul(V.T, np.matmul(A, V))
-    
-    (eigval, eigvect) = lin.eigh(H)
-    val = list(eigval)
-    ind_lowest = val.index(min(val))
-    lambdaj = eigval[ind_lowest]
-    yj = eigvect[:, [ind_lowest]]
-    
-    uj = np.dot(V, yj)
-    rj = np.dot(A, uj) - lambdaj*uj
-    if lin.norm(rj) < tol :
-        return (lambdaj, uj)
-    else:
-        Mj = lin.inv(np.diag(np.diag(A)) - lambdaj*np.eye(n))
-        tj = np.dot(Mj, rj)
-        V = perform_modified_gram_schmidt(np.append(V, tj, axis=1))
-    while lin.norm(rj) > tol:
-        for _ in range(stp):
-            H = np.matmul(V.T, np.matmul(A, V))
-            
-            (eigval, eigvect) = lin.eigh(H)
-            val = list(eigval)
-            ind_lowest = val.index(min(val))
-            lambdaj = eigval[ind_lowest]
-            yj = eigvect[:, [ind_lowest]]
-            
-            uj = np.dot(V, yj)
-            rj = np.dot(A, uj) - lambdaj*uj
-            if lin.norm(rj) < tol:
-                return (round(lambdaj, prec), uj)
-            else:
-                #Mj=lin.inv(np.diag(np.diag(A))-lambdaj*np.eye(n)) # Jacobi preconditionner
-                Mj = np.eye(n) # Lanczos method
-                tj = np.dot(Mj, rj)
-                V = perform_modified_gram_schmidt(np.append(V, tj, axis=1))
-
-    return (round(lambdaj, prec), uj)
-
-
-def get_lowests_eig(eigvals, eigvects, nb_eig): 
-    """
-    Return the nb_eig lowests eigenvalues and associated eigenvectors
-    Args:
-        eigvals (list<float> or np.array): the list of eigenvalues
-        eigvects (np.array): the corresponding eigenvectors
-    Returns:
-        val_sorted (list<float>): the nb_eig lowests eigenvalues
-        vect_sorted (np.array): the corresponding eigenvectors
-    """
-    eigvals_temp = copy.deepcopy(eigvals)
-    sorted_eigvals = list(sorted(eigvals_temp))[:nb_eig]
-    val_sorted = sorted(list(set(sorted_eigvals)))
-    sorted_indexes = []
-    for val in val_sorted:
-        val_indices = [ind for ind, elt in enumerate(eigvals_temp) if elt == val]
-        val_indices = val_indices[: min(len(val_indices), nb_eig - len(sorted_indexes))]
-        sorted_indexes += val_indices
-    vect_sorted = eigvects[:, sorted_indexes]
-    return (sorted_eigvals, vect_sorted)
-    
-def get_meaningful_corrections(krylov_basis, temp_corrections, droptol, eta, nu, dim_max):
-    """
-    Computes the meaningful corrections to perform in modified_davidson_algorithm
-    Args:
-        krylov_basis (np.array): the basis of the search subspace
-        temp_corrections (np.array): computed corrections, residues multiplied by the preconditionning matrix
-        droptol (float): drop-tolerance for the meaningful corrections
-        eta (float): threshold in the precision for the corrections
-        nu (int): the number of eigenstates yet to compute
-        dim_max (int): limit to the dimension of the search space
-    Returns:
-        corrections (np.array): the meaningful corrections to perform
-    """
-    dim = temp_corrections.shape[0]
-    corrections = np.copy(krylov_basis)
-    block_size_new = 0
-    max_orth = 2
-    for corr in range(nu):
-        ind_k = 0
-        while True :
-            old = lin.norm(temp_corrections[:, corr])
-            for ind_j in range(corrections.shape[1]):
-                temp_corrections[:, corr] = np.dot(np.eye(dim) - \
-                    np.dot(corrections[:,ind_j][:,None], corrections[:,ind_j][None,:]), temp_corrections[:, corr])
-            ind_k += 1
-            if (ind_k == max_orth - 1) or lin.norm(temp_corrections[:, corr]) > eta*old:
-                break
-        if lin.norm(temp_corrections[:, corr]) > droptol:
-            block_size_new += 1
-            correction = temp_corrections[:, [corr]]/lin.norm(temp_corrections[:, corr])
-            corrections = np.append(corrections, correction.tolist(), axis=1)
-    return corrections[:,-block_size_new:]
-
-
-def modified_davidson_algorithm_opt(A, nb_val, init_block_size, stp=100, tol=1e-3, droptol=1e-6, eta=0.1, dim_max=0):
-    """
-    Modified Davidson algorithm for simultaneous computation of the nb_val lowests eigenvectors of csr sparse matrix A0,\
-        using the Davidson preconditionners (C = (diag(A) - lambda_i*I)^-1)
-    Args:
-        A (scipy.sparse.csr_matrix): the matrix we seek to compute the eigenstates
-        nb_val (int): the number of eigenstates to compute
-        init_block_size (int): initial dimension of the search subspace
-        stp (int): maximum number of steps (default to 100)
-        tol (float): tolerance for the stopping criteria on residues (default to 1e-3)
-        eta (float): threshold in the precision for the corrections (0 << eta < 1, default to 0.1)
-        droptol (float): drop-tolerance for the meaningful corrections (default to 1e-6)
-        dim_max (int): limit to the dimension of the search space (default to the dimension of A)
-    Returns:
-        eigenstates (class Eigenstates): the eigenvalues and correponding eigenvectors
-    """
-    dim = A.shape[0]
-    if dim_max == 0:
-        dim_max = dim
-
-    nu_0 = max(init_block_size, nb_val)
-    nb_found = 0
-    block_size = nu_0
-
-    eigvals = []
-    eigvects = np.zeros((dim, nb_val))
-
-    krylov_basis = perform_modified_gram_schmidt(np.random.rand(dim, block_size))
-
-    for _ in range(stp):
-        # Krylov vectors
-        mat_w = A.dot(krylov_basis) 
-        # Rayleigh matrix
-        mat_rayleigh = np.matmul(krylov_basis.T, mat_w)
-        nu = min(mat_rayleigh.shape[0], nu_0 - nb_found)
-        # Eigenpairs
-        eigvals_temp, eigvects_temp = get_lowests_eig(*lin.eigh(mat_rayleigh), nu)
-        # Ritz vectors
-        ritz_vectors = np.matmul(krylov_basis, eigvects_temp)
-        # Residues
-        residues = np.zeros((dim, nu))
-        for col in range(nu):
-            residues[:,col] = eigvals_temp[col] * ritz_vectors[:,col] - np.dot(mat_w, eigvects_temp[:,col])
-        conv_residues = [lin.norm(residues[:,col]) <= tol for col in range(nu)]
-        nc = sum(conv_residues)
-        # Deflation
-        for col, res_ind in enumerate(conv_residues): # Adding converging eigenvector to the solutions
-            nbc = 0
-            if res_ind == True and nb_found < nb_val:
-                eigvals.append(eigvals_temp[col])
-                eigvects[:,nb_found + nbc] = ritz_vectors[:,col]
-                ritz_vectors[:, col], ritz_vectors[:, nbc] = ritz_vectors[:, nbc], ritz_vectors[:, col]
-                nbc += 1
-        nb_found += nc
-        if nb_found >= nb_val:
-            return Eigenstates(eigvals, [], eigvects)
-        # Correction of unsatisfactory residues
-        temp_corrections = np.zeros((dim, nu))
-        for ind in range(nc, nu):
-            temp_corrections[:,ind] = np.dot(lin.inv(np.diag(A.diagonal()) - eigvals_temp[ind]*np.eye(dim)), \
-            residues[:,ind])
-        # Meaningful corrections
-        corrections = get_meaningful_corrections(krylov_basis, temp_corrections, droptol, eta, nu, dim_max)
-        block_size_new = corrections.shape[1]
-        # Iteration
-        if (krylov_basis.shape[0] > dim_max - block_size_new) or (nc != 0) or (block_size_new == 0) : # restart
-            krylov_basis = perform_modified_gram_schmidt(np.concatenate((ritz_vectors[:,nc:], corrections), 1))
-            block_size = nu - nc + block_size_new
-        else : # expansion of the search subspace
-            krylov_basis = perform_modified_gram_schmidt(np.concatenate((krylov_basis, corrections), 1))
-            block_size = block_size_new
-    return Eigenstates(eigvals, [], eigvects)
-
-def modified_davidson_algorithm(A, nb_val, initial_guess=None, stp=100, tol=1e-3, dim_max=0, verbose=False):
-    """
-    Modified Davidson algorithm for simultaneous computation of the nb_val lowests eigenvectors of csr sparse matrix A0,\
-        using the Davidson preconditionners (C = (diag(A) - lambda_i*I)^-1)
-    Args:
-        A (scipy.sparse.csr_matrix): the matrix we seek to compute the eigenstates
-        nb_val (int): the number of eigenstates to compute
-        initial_guess (np.array): the initial guesses for the eigenvectors
-        stp (int): maximum number of steps (default to 100)
-        tol (float): tolerance for the stopping criteria on residues (default to 1e-3)
-        dim_max (int): limit to the dimension of the search space (default to the dimension of A)
-        verbose (bool): Tells if we want to display information about the progression of computations in the shell
-    Returns:
-        eigenstates (class Eigenstates): the eigenvalues and correponding eigenvectors
-    """
-    dim = A.shape[0]
-    if dim_max == 0:
-        dim_max = dim
-    nb_val = min(nb_val, dim_max)
-
-    if initial_guess is None:
-        initial_guess = np.random.rand(dim, nb_val)
-    
-    # Krylov basis (basis of the search space)
-    if nb_val > 1 :
-        krylov_basis = perform_modified_gram_schmidt(initial_guess)
-    else:
-        krylov_basis = initial_guess
-
-    for _ in trange_verbose(stp, verbose):
-        # Krylov vectors
-        mat_w = A.dot(krylov_basis) 
-        # Rayleigh matrix
-        mat_rayleigh = np.matmul(krylov_basis.T, mat_w)
-        # Eigenpairs
-        eigvals_temp, eigvects_temp = get_lowests_eig(*lin.eigh(mat_rayleigh), nb_val)
-        # Ritz vectors
-        ritz_vectors = np.matmul(krylov_basis, eigvects_temp)
-        # Residues
-        residues = np.zeros((dim, nb_val))
-        for col in range(nb_val):
-            residues[:,col] = eigvals_temp[col] * ritz_vectors[:,col] - np.dot(mat_w, eigvects_temp[:,col])
-        conv = True
-        for col in range(nb_val):
-            conv *= lin.norm(residues[:,col]) <= tol
-        if conv == True:
-            print_verbose("Norm of residues : {}".format([lin.norm(residues[:,col]) for col in range(nb_val)]), verbose)
-            return Eigenstates(eigvals_temp, [], ritz_vectors)
-        # Correction of unsatisfactory residues
-        corrections = np.zeros((dim, nb_val))
-        for ind in range(nb_val):
-            preconditionner = sp.csr_matrix(\
-                ([1 / (diag - eigvals_temp[ind]) for diag in A.diagonal()], (range(dim), range(dim)) ), \
-                shape=(dim, dim))
-            corrections[:,ind] = preconditionner.dot(residues[:,ind])
-        # Iteration
-        if krylov_basis.shape[0] > dim_max - nb_val :
-            krylov_basis = perform_modified_gram_schmidt(np.concatenate((ritz_vectors, corrections), 1))
-        else : # expansion of the search subspace
-            krylov_basis = perform_modified_gram_schmidt(np.concatenate((krylov_basis, corrections), 1))
-    print_verbose("Maximum number of iterations exceeded, Davidson procedure could not converge.", verbose)
-    return Eigenstates(eigvals_temp, [], ritz_vectors)
-    
-    
-### Gram-Schmidt procedures
-    
-def perform_modified_gram_schmidt(V):
-    """
-    Performs the modified Gram Schmidt algorithm on a set of vectors vects
-    Args:
-        V (np.array): a set of vectors
-    Returns:
-        Q (np.array): the orthonormalized set of vectors from vects
-    """
-    Q, _ = lin.qr(V) 
-    return Q
-
-    
-def gramSchmidt(V): 
-    """
-    Gram-Schmidt orthonormalization procedure, orthonormalize the columns of the matrix V
-    Args:
-        V (np.array): the set of vectors to orthonormalize
-    Returns:
-        A (np.array): the orthonormalized set of vectors
-    """
-    dim = V.shape[0]
-    A = np.zeros(V.shape) # Orthonormalized columns of V
-    A[:,[0]] = V[:,[0]] / lin.norm(V[:,[0]])
-    for col in range(1, dim):
-        vect = V[:,[col]]
-        for prec in range(col):
-            vect_prec = A[:,[prec]]
-            vect = vect - (np.dot(vect.T, vect_prec) / np.dot(vect_prec.T, vect_prec)) * vect_prec
-        A[:,[col]] = vect / lin.norm(vect)
-    return A
-    
-def perform_matrix_orthogonal_projection(A, vects): # Not complete
-    """
-    Return the matrix A projected and restrained onto the orthogonal space to Span(vects)
-    Args:
-        A (np.array): A matrix
-        vects (np.array): an orthonormal basis of the subspace along which we want to project A
-    Returns:
-        A_proj (np.array): the projection and restriction of the matrix A onto :math:`vects^{\\perp}`
-    """
-    dim = A.shape[1]
-    dim_sub = vects.shape[1]
-    comp_basis = np.ones((dim, dim - dim_sub))
-    basis = np.append(vects, comp_basis, axis=1)
-    projector = perform_modified_gram_schmidt(basis) # orthogonal projector associated to the direct sum : Span(vects) + vects^{\perp}
-    A_proj = np.matmul(projector.T, np.matmul(A, projector))[dim_sub:,dim_sub:]
-    return A_proj
-    
-### Eigenvectors properties
-
-def compute_spin_and_multiplicity(basis, eigvects): # Not complete
-    """
-    Computes the expectation value of S^2 for each computed eigenvector
-    Args:
-        basis (class baseConstruction.Basis): the basis of our configuration
-        eigvect (np.array): the eigenvectors, expressed in this basis, that we want to calculate the spin multiplicity
-    Returns:
-        spins
-        multiplicity
-    """
-    nb_val = eigvects.shape[1]
-    spins = []
-    multiplicity = []
-
-    for ind in range(nb_val):
-        spin = itr.compute_S2_exp_val(basis, eigvects[:,[ind]])
-        spins.append(spin)
-        multiplicity.append(itr.compute_spin_multiplicity(spin))
-    return (spins,multiplicity)
-    
-
-### Utilities
-
-def print_verbose(string, verbose=False):
-    """
-    Prints the string in the shell only if verbose is True.
-    Args:
-        string (str): the string to print in the shell
-        verbose (bool): tells if we print or not string in the shell
-    """
-    if verbose:
-        print("[dav] ", string)
-
-def trange_verbose(steps, verbose=False):
-    """
-    Uses the tqdm package only if verbose == True
-    Args:
-        steps (int): our range
-        verbose (bool): tells if we want or not to print informations about the progression of computations in the shell
-    Returns:
-        range_iter (range or trange): either a range or trange object depending on verbose
-    """
-    if verbose:
-        return trange(steps)
-    else:
-        return range(steps)
-    
+import math as mp
+import numpy as np
+import numpy.linalg as lin
+np.set_printoptions(linewidth=1000)
+import scipy.sparse as sp
+import scipy.sparse.linalg as slin
+
+import copy
+
+import interactions as itr
+
+from tqdm import tqdm, trange # Install tqdm via pip
+
+class Diagonalization :
+    """
+    Class containing parameters for the diagonalization procedure.
+    """
+    def __init__(self, nb_val, stp, tol, dim_max, initial_guess=None):
+        """
+        Args:
+            nb_val (int): the number of lowest eigenstates to compute
+            stp (int): maximum number of steps
+            tol (float): tolerance for the stopping criteria
+            dim_max (int): limit to the dimension of the search space
+            initial_guess (np.array): the initial guess for the eigenstates
+        """
+        self.nb_val = nb_val
+        self.stp = int(stp)
+        self.tol = tol
+        self.dim_max = dim_max
+        self.initial_guess = initial_guess
+
+class Eigenstates :
+    """
+    Class describing the elements of a list of eigenstates.
+    """
+    def __init__(self, eigvals, spins, eigvects):
+        """
+        Args:
+            eigvals (list<float>): the list of eigenvalues
+            spins (list<float>): the list of spins of the corresponding eigenvectors
+            eigvects (list<np.array>): the list of corresponding eigenvectors
+        """
+        self.eigvals = eigvals
+        self.spins = spins
+        self.eigvects = eigvects
+
+### Davidson algorithm - projections onto unexplored eigenspaces
+
+def davidson_algorithm(A,stp,tol,prec):
+    """
+    Davidson algorithm, yield the lowest eigenstate of the matrix A.
+    Args:
+        A (np.array): diagonalizable matrix
+        stp (int): maximal number of steps
+        tol (float): tolerance for the stopping criteria
+        prec (float): expected precision of the final eigenstate
+    """
+    n = A.shape[0]
+    v0 = np.random.random((n,1))
+    V = np.array(v0)
+    H = np.matmul(V.T, np.matmul(A, V))
+    
+    (eigval, eigvect) = lin.eigh(H)
+    val = list(eigval)
+    ind_lowest = val.index(min(val))
+    lambdaj = eigval[ind_lowest]
+    yj = eigvect[:, [ind_lowest]]
+    
+    uj = np.dot(V, yj)
+    rj = np.dot(A, uj) - lambdaj*uj
+    if lin.norm(rj) < tol :
+        return (lambdaj, uj)
+    else:
+        Mj = lin.inv(np.diag(np.diag(A)) - lambdaj*np.eye(n))
+        tj = np.dot(Mj, rj)
+        V = perform_modified_gram_schmidt(np.append(V, tj, axis=1))
+    while lin.norm(rj) > tol:
+        for _ in range(stp):
+            H = np.matmul(V.T, np.matmul(A, V))
+            
+            (eigval, eigvect) = lin.eigh(H)
+            val = list(eigval)
+            ind_lowest = val.index(min(val))
+            lambdaj = eigval[ind_lowest]
+            yj = eigvect[:, [ind_lowest]]
+            
+            uj = np.dot(V, yj)
+            rj = np.dot(A, uj) - lambdaj*uj
+            if lin.norm(rj) < tol:
+                return (round(lambdaj, prec), uj)
+            else:
+                #Mj=lin.inv(np.diag(np.diag(A))-lambdaj*np.eye(n)) # Jacobi preconditionner
+                Mj = np.eye(n) # Lanczos method
+                tj = np.dot(Mj, rj)
+                V = perform_modified_gram_schmidt(np.append(V, tj, axis=1))
+
+    return (round(lambdaj, prec), uj)
+
+
+def get_lowests_eig(eigvals, eigvects, nb_eig): 
+    """
+    Return the nb_eig lowests eigenvalues and associated eigenvectors
+    Args:
+        eigvals (list<float> or np.array): the list of eigenvalues
+        eigvects (np.array): the corresponding eigenvectors
+    Returns:
+        val_sorted (list<float>): the nb_eig lowests eigenvalues
+        vect_sorted (np.array): the corresponding eigenvectors
+    """
+    eigvals_temp = copy.deepcopy(eigvals)
+    sorted_eigvals = list(sorted(eigvals_temp))[:nb_eig]
+    val_sorted = sorted(list(set(sorted_eigvals)))
+    sorted_indexes = []
+    for val in val_sorted:
+        val_indices = [ind for ind, elt in enumerate(eigvals_temp) if elt == val]
+        val_indices = val_indices[: min(len(val_indices), nb_eig - len(sorted_indexes))]
+        sorted_indexes += val_indices
+    vect_sorted = eigvects[:, sorted_indexes]
+    return (sorted_eigvals, vect_sorted)
+    
+def get_meaningful_corrections(krylov_basis, temp_corrections, droptol, eta, nu, dim_max):
+    """
+    Computes the meaningful corrections to perform in modified_davidson_algorithm
+    Args:
+        krylov_basis (np.array): the basis of the search subspace
+        temp_corrections (np.array): computed corrections, residues multiplied by the preconditionning matrix
+        droptol (float): drop-tolerance for the meaningful corrections
+        eta (float): threshold in the precision for the corrections
+        nu (int): the number of eigenstates yet to compute
+        dim_max (int): limit to the dimension of the search space
+    Returns:
+        corrections (np.array): the meaningful corrections to perform
+    """
+    dim = temp_corrections.shape[0]
+    corrections = np.copy(krylov_basis)
+    block_size_new = 0
+    max_orth = 2
+    for corr in range(nu):
+        ind_k = 0
+        while True :
+            old = lin.norm(temp_corrections[:, corr])
+            for ind_j in range(corrections.shape[1]):
+                temp_corrections[:, corr] = np.dot(np.eye(dim) - \
+                    np.dot(corrections[:,ind_j][:,None], corrections[:,ind_j][None,:]), temp_corrections[:, corr])
+            ind_k += 1
+            if (ind_k == max_orth - 1) or lin.norm(temp_corrections[:, corr]) > eta*old:
+                break
+        if lin.norm(temp_corrections[:, corr]) > droptol:
+            block_size_new += 1
+            correction = temp_corrections[:, [corr]]/lin.norm(temp_corrections[:, corr])
+            corrections = np.append(corrections, correction.tolist(), axis=1)
+    return corrections[:,-block_size_new:]
+
+
+def modified_davidson_algorithm_opt(A, nb_val, init_block_size, stp=100, tol=1e-3, droptol=1e-6, eta=0.1, dim_max=0):
+    """
+    Modified Davidson algorithm for simultaneous computation of the nb_val lowests eigenvectors of csr sparse matrix A0,\
+        using the Davidson preconditionners (C = (diag(A) - lambda_i*I)^-1)
+    Args:
+        A (scipy.sparse.csr_matrix): the matrix we seek to compute the eigenstates
+        nb_val (int): the number of eigenstates to compute
+        init_block_size (int): initial dimension of the search subspace
+        stp (int): maximum number of steps (default to 100)
+        tol (float): tolerance for the stopping criteria on residues (default to 1e-3)
+        eta (float): threshold in the precision for the corrections (0 << eta < 1, default to 0.1)
+        droptol (float): drop-tolerance for the meaningful corrections (default to 1e-6)
+        dim_max (int): limit to the dimension of the search space (default to the dimension of A)
+    Returns:
+        eigenstates (class Eigenstates): the eigenvalues and correponding eigenvectors
+    """
+    dim = A.shape[0]
+    if dim_max == 0:
+        dim_max = dim
+
+    nu_0 = max(init_block_size, nb_val)
+    nb_found = 0
+    block_size = nu_0
+
+    eigvals = []
+    eigvects = np.zeros((dim, nb_val))
+
+    krylov_basis = perform_modified_gram_schmidt(np.random.rand(dim, block_size))
+
+    for _ in range(stp):
+        # Krylov vectors
+        mat_w = A.dot(krylov_basis) 
+        # Rayleigh matrix
+        mat_rayleigh = np.matmul(krylov_basis.T, mat_w)
+        nu = min(mat_rayleigh.shape[0], nu_0 - nb_found)
+        # Eigenpairs
+        eigvals_temp, eigvects_temp = get_lowests_eig(*lin.eigh(mat_rayleigh), nu)
+        # Ritz vectors
+        ritz_vectors = np.matmul(krylov_basis, eigvects_temp)
+        # Residues
+        residues = np.zeros((dim, nu))
+        for col in range(nu):
+            residues[:,col] = eigvals_temp[col] * ritz_vectors[:,col] - np.dot(mat_w, eigvects_temp[:,col])
+        conv_residues = [lin.norm(residues[:,col]) <= tol for col in range(nu)]
+        nc = sum(conv_residues)
+        # Deflation
+        for col, res_ind in enumerate(conv_residues): # Adding converging eigenvector to the solutions
+            nbc = 0
+            if res_ind == True and nb_found < nb_val:
+                eigvals.append(eigvals_temp[col])
+                eigvects[:,nb_found + nbc] = ritz_vectors[:,col]
+                ritz_vectors[:, col], ritz_vectors[:, nbc] = ritz_vectors[:, nbc], ritz_vectors[:, col]
+                nbc += 1
+        nb_found += nc
+        if nb_found >= nb_val:
+            return Eigenstates(eigvals, [], eigvects)
+        # Correction of unsatisfactory residues
+        temp_corrections = np.zeros((dim, nu))
+        for ind in range(nc, nu):
+            temp_corrections[:,ind] = np.dot(lin.inv(np.diag(A.diagonal()) - eigvals_temp[ind]*np.eye(dim)), \
+            residues[:,ind])
+        # Meaningful corrections
+        corrections = get_meaningful_corrections(krylov_basis, temp_corrections, droptol, eta, nu, dim_max)
+        block_size_new = corrections.shape[1]
+        # Iteration
+        if (krylov_basis.shape[0] > dim_max - block_size_new) or (nc != 0) or (block_size_new == 0) : # restart
+            krylov_basis = perform_modified_gram_schmidt(np.concatenate((ritz_vectors[:,nc:], corrections), 1))
+            block_size = nu - nc + block_size_new
+        else : # expansion of the search subspace
+            krylov_basis = perform_modified_gram_schmidt(np.concatenate((krylov_basis, corrections), 1))
+            block_size = block_size_new
+    return Eigenstates(eigvals, [], eigvects)
+
+def modified_davidson_algorithm(A, nb_val, initial_guess=None, stp=100, tol=1e-3, dim_max=0, verbose=False):
+    """
+    Modified Davidson algorithm for simultaneous computation of the nb_val lowests eigenvectors of csr sparse matrix A0,\
+        using the Davidson preconditionners (C = (diag(A) - lambda_i*I)^-1)
+    Args:
+        A (scipy.sparse.csr_matrix): the matrix we seek to compute the eigenstates
+        nb_val (int): the number of eigenstates to compute
+        initial_guess (np.array): the initial guesses for the eigenvectors
+        stp (int): maximum number of steps (default to 100)
+        tol (float): tolerance for the stopping criteria on residues (default to 1e-3)
+        dim_max (int): limit to the dimension of the search space (default to the dimension of A)
+        verbose (bool): Tells if we want to display information about the progression of computations in the shell
+    Returns:
+        eigenstates (class Eigenstates): the eigenvalues and correponding eigenvectors
+    """
+    dim = A.shape[0]
+    if dim_max == 0:
+        dim_max = dim
+    nb_val = min(nb_val, dim_max)
+
+    if initial_guess is None:
+        initial_guess = np.random.rand(dim, nb_val)
+    
+    # Krylov basis (basis of the search space)
+    if nb_val > 1 :
+        krylov_basis = perform_modified_gram_schmidt(initial_guess)
+    else:
+        krylov_basis = initial_guess
+
+    for _ in trange_verbose(stp, verbose):
+        # Krylov vectors
+        mat_w = A.dot(krylov_basis) 
+        # Rayleigh matrix
+        mat_rayleigh = np.matmul(krylov_basis.T, mat_w)
+        # Eigenpairs
+        eigvals_temp, eigvects_temp = get_lowests_eig(*lin.eigh(mat_rayleigh), nb_val)
+        # Ritz vectors
+        ritz_vectors = np.matmul(krylov_basis, eigvects_temp)
+        # Residues
+        residues = np.zeros((dim, nb_val))
+        for col in range(nb_val):
+            residues[:,col] = eigvals_temp[col] * ritz_vectors[:,col] - np.dot(mat_w, eigvects_temp[:,col])
+        conv = True
+        for col in range(nb_val):
+            conv *= lin.norm(residues[:,col]) <= tol
+        if conv == True:
+            print_verbose("Norm of residues : {}".format([lin.norm(residues[:,col]) for col in range(nb_val)]), verbose)
+            return Eigenstates(eigvals_temp, [], ritz_vectors)
+        # Correction of unsatisfactory residues
+        corrections = np.zeros((dim, nb_val))
+        for ind in range(nb_val):
+            preconditionner = sp.csr_matrix(\
+                ([1 / (diag - eigvals_temp[ind]) for diag in A.diagonal()], (range(dim), range(dim)) ), \
+                shape=(dim, dim))
+            corrections[:,ind] = preconditionner.dot(residues[:,ind])
+        # Iteration
+        if dim_max < dim and krylov_basis.shape[1] > dim_max - nb_val : # restart
+            krylov_basis = perform_modified_gram_schmidt(np.concatenate((ritz_vectors, corrections), 1))
+        else : # expansion of the search subspace
+            krylov_basis = perform_modified_gram_schmidt(np.concatenate((krylov_basis, corrections), 1))
+    print_verbose("Maximum number of iterations exceeded, Davidson procedure could not converge.", verbose)
+    return Eigenstates(eigvals_temp, [], ritz_vectors)
+    
+    
+### Gram-Schmidt procedures
+    
+def perform_modified_gram_schmidt(V):
+    """
+    Performs the modified Gram Schmidt algorithm on a set of vectors vects
+    Args:
+        V (np.array): a set of vectors
+    Returns:
+        Q (np.array): the orthonormalized set of vectors from vects
+    """
+    Q, _ = lin.qr(V) 
+    return Q
+
+    
+def gramSchmidt(V): 
+    """
+    Gram-Schmidt orthonormalization procedure, orthonormalize the columns of the matrix V
+    Args:
+        V (np.array): the set of vectors to orthonormalize
+    Returns:
+        A (np.array): the orthonormalized set of vectors
+    """
+    dim = V.shape[0]
+    A = np.zeros(V.shape) # Orthonormalized columns of V
+    A[:,[0]] = V[:,[0]] / lin.norm(V[:,[0]])
+    for col in range(1, dim):
+        vect = V[:,[col]]
+        for prec in range(col):
+            vect_prec = A[:,[prec]]
+            vect = vect - (np.dot(vect.T, vect_prec) / np.dot(vect_prec.T, vect_prec)) * vect_prec
+        A[:,[col]] = vect / lin.norm(vect)
+    return A
+    
+def perform_matrix_orthogonal_projection(A, vects): # Not complete
+    """
+    Return the matrix A projected and restrained onto the orthogonal space to Span(vects)
+    Args:
+        A (np.array): A matrix
+        vects (np.array): an orthonormal basis of the subspace along which we want to project A
+    Returns:
+        A_proj (np.array): the projection and restriction of the matrix A onto :math:`vects^{\\perp}`
+    """
+    dim = A.shape[1]
+    dim_sub = vects.shape[1]
+    comp_basis = np.ones((dim, dim - dim_sub))
+    basis = np.append(vects, comp_basis, axis=1)
+    projector = perform_modified_gram_schmidt(basis) # orthogonal projector associated to the direct sum : Span(vects) + vects^{\perp}
+    A_proj = np.matmul(projector.T, np.matmul(A, projector))[dim_sub:,dim_sub:]
+    return A_proj
+    
+### Eigenvectors properties
+
+def compute_spin_and_multiplicity(basis, eigvects): # Not complete
+    """
+    Computes the expectation value of S^2 for each computed eigenvector
+    Args:
+        basis (class baseConstruction.Basis): the basis of our configuration
+        eigvect (np.array): the eigenvectors, expressed in this basis, that we want to calculate the spin multiplicity
+    Returns:
+        spins
+        multiplicity
+    """
+    nb_val = eigvects.shape[1]
+    spins = []
+    multiplicity = []
+
+    for ind in range(nb_val):
+        spin = itr.compute_S2_exp_val(basis, eigvects[:,[ind]])
+        spins.append(spin)
+        multiplicity.append(itr.compute_spin_multiplicity(spin))
+    return (spins,multiplicity)
+    
+
+### Utilities
+
+def print_verbose(string, verbose=False):
+    """
+    Prints the string in the shell only if verbose is True.
+    Args:
+        string (str): the string to print in the shell
+        verbose (bool): tells if we print or not string in the shell
+    """
+    if verbose:
+        print("[dav] ", string)
+
+def trange_verbose(steps, verbose=False):
+    """
+    Uses the tqdm package only if verbose == True
+    Args:
+        steps (int): our range
+        verbose (bool): tells if we want or not to print informations about the progression of computations in the shell
+    Returns:
+        range_iter (range or trange): either a range or trange object depending on verbose
+    """
+    if verbose:
+        return trange(steps)
+    else:
+        return range(steps)
+    
-- 
2.43.0


From 633a61cdab97dc71639050c725b424a4b1680e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:04 +0000
Subject: [PATCH 02/18] fix: never ask Davidson for more eigenstates than the
 dimension of the matrix

With dim_max larger than the dimension, nb_val > dim ended in an IndexError.
---
 davidson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/davidson.py b/davidson.py
index e3ecf0b..29d3d0d 100644
--- a/davidson.py
+++ b/davidson.py
@@ -244,7 +244,7 @@ def modified_davidson_algorithm(A, nb_val, initial_guess=None, stp=100, tol=1e-3
     dim = A.shape[0]
     if dim_max == 0:
         dim_max = dim
-    nb_val = min(nb_val, dim_max)
+    nb_val = min(nb_val, dim_max, dim)
 
     if initial_guess is None:
         initial_guess = np.random.rand(dim, nb_val)
-- 
2.43.0


From 6817fd49c673b4d530f03d2246f4bc5256fb0bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:04 +0000
Subject: [PATCH 03/18] fix: normalise the initial guess of Davidson for a
 single eigenstate too

An immediately converged single state was returned, and saved, without being normalised.
---
 davidson.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/davidson.py b/davidson.py
index 29d3d0d..295fdd3 100644
--- a/davidson.py
+++ b/davidson.py
@@ -250,10 +250,7 @@ def modified_davidson_algorithm(A, nb_val, initial_guess=None, stp=100, tol=1e-3
         initial_guess = np.random.rand(dim, nb_val)
     
     # Krylov basis (basis of the search space)
-    if nb_val > 1 :
-        krylov_basis = perform_modified_gram_schmidt(initial_guess)
-    else:
-        krylov_basis = initial_guess
+    krylov_basis = perform_modified_gram_schmidt(initial_guess)
 
     for _ in trange_verbose(stp, verbose):
         # Krylov vectors
-- 
2.43.0


From b967243422fc6c7d540e1a5212ead93b58ad4e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:04 +0000
Subject: [PATCH 04/18] fix: keep the Davidson preconditionner finite when a
 Ritz value equals a diagonal element

The division by zero filled the search space with nan and ended in a LinAlgError.
---
 davidson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/davidson.py b/davidson.py
index 295fdd3..e9d0f11 100644
--- a/davidson.py
+++ b/davidson.py
@@ -275,7 +275,7 @@ def modified_davidson_algorithm(A, nb_val, initial_guess=None, stp=100, tol=1e-3
         corrections = np.zeros((dim, nb_val))
         for ind in range(nb_val):
             preconditionner = sp.csr_matrix(\
-                ([1 / (diag - eigvals_temp[ind]) for diag in A.diagonal()], (range(dim), range(dim)) ), \
+                ([1 / (diag - eigvals_temp[ind]) if abs(diag - eigvals_temp[ind]) > 1e-12 else 1e12 for diag in A.diagonal()], (range(dim), range(dim)) ), \
                 shape=(dim, dim))
             corrections[:,ind] = preconditionner.dot(residues[:,ind])
         # Iteration
-- 
2.43.0


From a89807193f3f3c391181932054d57b8946606995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:04 +0000
Subject: [PATCH 05/18] fix: name embedding files after the selected
 interactions only

For a partial selection the embeddings looked up, and saved, the file name of all the
interactions instead of the one under which the computations were saved.
---
 embedding.py      | 8 ++++----
 postProcessing.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/embedding.py b/embedding.py
index 50fec1e..dfdd195 100644
--- a/embedding.py
+++ b/embedding.py
@@ -69,7 +69,7 @@ def embedding_neel(data, self_consistency_tol, max_iter, nb_val=10): # Fix the g
     else:
         extensions = {"bt":"t", "bij":"J", "bSD":"SD", "btN":"tN", "bV":"V"}
         for name in dir(bool_interactions):
-            if name in extensions:
+            if name in extensions and getattr(bool_interactions, name):
                 file_name += extensions[name]
         file_name += ".json"
 
@@ -290,7 +290,7 @@ def save_data_peripheral_embedding(data_computations):
     else:
         extensions = {"bt":"t", "bij":"J", "bSD":"SD", "btN":"tN", "bV":"V"}
         for name in dir(bool_interactions):
-            if name in extensions:
+            if name in extensions and getattr(bool_interactions, name):
                 file_name += extensions[name]
         file_name += ".json"
  
@@ -399,7 +399,7 @@ def embedding_blocks(data, self_consistency_tol, max_iter, dynamic_embedding=Fal
     else:
         extensions = {"bt":"t", "bij":"J", "bSD":"SD", "btN":"tN", "bV":"V"}
         for name in dir(bool_interactions):
-            if name in extensions:
+            if name in extensions and getattr(bool_interactions, name):
                 file_name += extensions[name]
         file_name += ".json"
     if neel_embedding:
@@ -804,7 +804,7 @@ def save_data_embedding_blocks(data_computations, dynamic_embedding, neel_embedd
     else:
         extensions = {"bt":"t", "bij":"J", "bSD":"SD", "btN":"tN", "bV":"V"}
         for name in dir(bool_interactions):
-            if name in extensions:
+            if name in extensions and getattr(bool_interactions, name):
                 file_name += extensions[name]
         file_name += ".json"
  
diff --git a/postProcessing.py b/postProcessing.py
index 47ed361..316fdfb 100644
--- a/postProcessing.py
+++ b/postProcessing.py
@@ -114,7 +114,7 @@ def generate_plots_configuration(data, input_plotting):
         else:
             extensions = {"bt":"t", "bij":"J", "bSD":"SD", "btN":"tN", "bV":"V"}
             for name in dir(bool_interactions):
-                if name in extensions:
+                if name in extensions and getattr(bool_interactions, name):
                     file_name_emb += extensions[name]
             file_name_emb += ".json"
         data_computations_embedding = iC.load_data("Embedding_blocks/" + file_name_emb)
-- 
2.43.0


From d6d307d4848a930b9e95a0112e911cb69e5c0aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:04 +0000
Subject: [PATCH 06/18] fix: recover the lattice type and the sites restriction
 of a saved configuration

The sites restriction came back as a list of lists, which made the loaded configuration
unusable, and the lattice type was lost.
---
 initialComputations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/initialComputations.py b/initialComputations.py
index 816e2a9..c756fdb 100644
--- a/initialComputations.py
+++ b/initialComputations.py
@@ -218,9 +218,11 @@ def recover_results(configuration, interactions, diagonalization, bool_interacti
     configuration_class = bC.Configuration(bond_matrix=np.array(configuration["bond_matrix"]), 
         nholes=configuration["nholes"], 
         nbeta=configuration["nbeta"])
-    for key in ["sites_restriction", "nbh", "nbv", "nblocs_side"]:
+    for key in ["lattice_type", "nbh", "nbv", "nblocs_side"]:
         if key in configuration.keys():
             setattr(configuration_class, key, configuration[key])
+    if "sites_restriction" in configuration.keys():
+        configuration_class.sites_restriction = tuple(configuration["sites_restriction"])
     if "times" in kwargs.keys():
         return DataComputations(\
             Data(
-- 
2.43.0


From 34937a9e01315534cab3875ca263baed34fe979c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:04 +0000
Subject: [PATCH 07/18] fix: keep bV_embedding in BoolInteractions

Plotting the hole density raised an AttributeError.
---
 initialComputations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/initialComputations.py b/initialComputations.py
index c756fdb..2d6f656 100644
--- a/initialComputations.py
+++ b/initialComputations.py
@@ -38,6 +38,7 @@ class BoolInteractions :
         self.bSD = bSD
         self.btN = btN
         self.bV = bV
+        self.bV_embedding = bV_embedding
         self.b_spin_multipicities = b_spin_multipicities
 
 class Times :
-- 
2.43.0


From 5b524f8888c5c8f3f0619548806fa6039294949e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:04 +0000
Subject: [PATCH 08/18] fix: measure computation times with a monotonic clock

An adjustment of the system clock during a computation corrupted the saved durations.
---
 initialComputations.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/initialComputations.py b/initialComputations.py
index 2d6f656..b31b0e5 100644
--- a/initialComputations.py
+++ b/initialComputations.py
@@ -103,23 +103,23 @@ def perform_initial_computations(data):
     bool_interactions = data.bool_interactions
     
     # Compute basis
-    start_basis = time.time()
+    start_basis = time.perf_counter()
     print("Computing basis...")
     basis = bC.construct_basis(configuration)
     print("done")
-    stop_basis = time.time()
+    stop_basis = time.perf_counter()
     duration_basis = stop_basis - start_basis    
 
     # Compute Hamiltonian
-    start_ham = time.time()
+    start_ham = time.perf_counter()
     print("Building hamiltonian...")
     ham = hC.build_hamiltonian(configuration=configuration, interactions=interactions, basis=basis, bool_interactions=bool_interactions, sites_restriction=[], verbose=True)
     print("done")
-    stop_ham = time.time()
+    stop_ham = time.perf_counter()
     duration_ham = stop_ham - start_ham
     
     # Compute eigenstates
-    start_eig = time.time()
+    start_eig = time.perf_counter()
     print("Computing eigenvalues and eigenvectors...")
     eigenstates = dav.modified_davidson_algorithm(ham, nb_val, initial_guess, stp, tol, dim_max, True)
     eigvects = eigenstates.eigvects
@@ -129,7 +129,7 @@ def perform_initial_computations(data):
         for col in trange(eigvects.shape[1]):
             vect = eigvects[:,[col]]
             spins.append(itr.compute_spin_number(configuration, vect))
-    stop_eig = time.time()
+    stop_eig = time.perf_counter()
     duration_eig = stop_eig - start_eig
 
     times = Times(duration_basis, duration_ham, duration_eig)
-- 
2.43.0


From 2c621a534082463918dbac6c12edbf57b2b09fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:04 +0000
Subject: [PATCH 09/18] fix: do not divide the lattice probabilities twice by
 the norm of the vector

---
 baseConstruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index 2d2c662..5da089a 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -732,7 +732,7 @@ def get_probability_spin_rectangular_lattice(basis, vect, spin):
             ind_site = ind_v * nblocs_side * nbh + ind_h 
             
             proba_sites = get_probability_spin_lattice(basis, vect, spin)
-            proba_lattice[nblocs_side * nbv - 1 - ind_v, ind_h] = proba_sites[ind_site] / (np.linalg.norm(vect) ** 2)
+            proba_lattice[nblocs_side * nbv - 1 - ind_v, ind_h] = proba_sites[ind_site]
     return proba_lattice
 
         
-- 
2.43.0


From 1bb9d56ed7f8d142992a755185daa877cdfb0fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:38 +0000
Subject: [PATCH 10/18] fix: recognise vertical bonds of one-site-wide lattices
 in peripheral embeddings

There neighboring sites of a column also differ by one.
---
 baseConstruction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index 5da089a..17d7aea 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -339,7 +339,7 @@ def is_bond_linear(configuration, site1, site2, site3): # Should implement metho
         elif len([site for site in (site_1, site_2, site_3) if site >= nsites]) == 2: # If 2 sites are on the peripheral lattice, the last one can't be colinear
             return False 
         else: # There is one site on the peripheral lattice
-            if abs(site_2 - site_1) == 1: # First bond horizontal
+            if abs(site_2 - site_1) == 1 and nbh * nblocs_side > 1: # First bond horizontal
                 if (site_3 >= nsites and site_3 < nsites + nbh * nblocs_side) or (site_3 >= nsites + (nbh + nbv) * nblocs_side \
                     and site_3 < nsites + (2 * nbh + nbv) * nblocs_side): # Second bond vertical
                     return False
-- 
2.43.0


From 64e05a438137a75346317a01fda6d9ef2fd34326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:38 +0000
Subject: [PATCH 11/18] fix: compare successive ground states up to their sign
 in the self-consistency test

The diagonalizer starts from random vectors: convergence was only detected when two
consecutive ground states came out with the same sign.
---
 embedding.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/embedding.py b/embedding.py
index dfdd195..c2be803 100644
--- a/embedding.py
+++ b/embedding.py
@@ -245,7 +245,8 @@ def embedding_neel(data, self_consistency_tol, max_iter, nb_val=10): # Fix the g
             #    print("-- {} :\n{}".format(coeff, bC.get_displayable_rectangular_lattice(configuration_block, determinants_block[ind])))
             #####
 
-            if lin.norm(ground_state_embedded - ground_state_temp) / lin.norm(ground_state_temp) < self_consistency_tol:
+            # A ground state is only defined up to its sign
+            if min(lin.norm(ground_state_embedded - ground_state_temp), lin.norm(ground_state_embedded + ground_state_temp)) / lin.norm(ground_state_temp) < self_consistency_tol:
                 data_computation = iC.DataComputations(data, determinants_block, ham_block, eigenstates_embedded)
                 print("[emb] ground state energy = {} | embedded ground state energy = {}".format(\
                     eigenstates_block.eigvals[0], eigenstates_embedded.eigvals[0]))
@@ -748,7 +749,8 @@ def embedding_blocks(data, self_consistency_tol, max_iter, dynamic_embedding=Fal
             ground_state_embedded = eigenstates_embedded.eigvects[:,[0]]
             ground_state_energy = eigenstates_embedded.eigvals[0]
 
-            if lin.norm(ground_state_embedded - ground_state_temp) / lin.norm(ground_state_temp) < self_consistency_tol:
+            # A ground state is only defined up to its sign
+            if min(lin.norm(ground_state_embedded - ground_state_temp), lin.norm(ground_state_embedded + ground_state_temp)) / lin.norm(ground_state_temp) < self_consistency_tol:
 
                 data_computation = iC.DataComputations(data, determinants_block, ham_block_embedded, eigenstates_embedded)
                 print("[emb] ground state energy = {} | embedded ground state energy = {}".format(\
-- 
2.43.0


From f9b23158712a9338dbf07aa7e4060fec0f26da28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 12/18] fix: save results atomically and without the initial
 guess

---
 embedding.py           | 112 +++++++++++++----------------------------
 initialComputations.py |  61 +++++++++++++++-------
 2 files changed, 76 insertions(+), 97 deletions(-)

diff --git a/embedding.py b/embedding.py
index c2be803..4acc52d 100644
--- a/embedding.py
+++ b/embedding.py
@@ -296,45 +296,23 @@ def save_data_peripheral_embedding(data_computations):
         file_name += ".json"
  
     # Saving results
-    try :
-        with open("./initialComputations/Peripheral_embedding/{}".format(file_name), "w") as savefile:
-            savefile.write(json.dumps({
-                "configuration" : configuration.__to_json__(), 
-                "interactions" : data_computations.data.interactions.__dict__, 
-                "diagonalization" : data_computations.data.diagonalization.__dict__, 
-                "bool_interactions" : data_computations.data.bool_interactions.__dict__,
-                "determinants" : data_computations.determinants, 
-                "hamiltonian" : {
-                    "data" : data_computations.hamiltonian.data.tolist(),
-                    "indices" : data_computations.hamiltonian.indices.tolist(),
-                    "indptr" : data_computations.hamiltonian.indptr.tolist()
-                }, 
-                "eigenstates" : {
-                    "eigvals" : data_computations.eigenstates.eigvals,
-                    "spins" : data_computations.eigenstates.spins,
-                    "eigvects" : data_computations.eigenstates.eigvects.tolist()
-                    }
-            })) 
-    except OSError:
-        os.mkdir("./initialComputations/Peripheral_embedding")
-        with open("./initialComputations/Peripheral_embedding/{}".format(file_name), "w") as savefile:
-            savefile.write(json.dumps({
-                "configuration" : configuration.__to_json__(), 
-                "interactions" : data_computations.data.interactions.__dict__, 
-                "diagonalization" : data_computations.data.diagonalization.__dict__, 
-                "bool_interactions" : data_computations.data.bool_interactions.__dict__,
-                "determinants" : data_computations.determinants, 
-                "hamiltonian" : {
-                    "data" : data_computations.hamiltonian.data.tolist(),
-                    "indices" : data_computations.hamiltonian.indices.tolist(),
-                    "indptr" : data_computations.hamiltonian.indptr.tolist()
-                }, 
-                "eigenstates" : {
-                    "eigvals" : data_computations.eigenstates.eigvals,
-                    "spins" : data_computations.eigenstates.spins,
-                    "eigvects" : data_computations.eigenstates.eigvects.tolist()
-                    }
-            })) 
+    iC.write_results("Peripheral_embedding/{}".format(file_name), {
+        "configuration" : configuration.__to_json__(), 
+        "interactions" : data_computations.data.interactions.__dict__, 
+        "diagonalization" : dict(data_computations.data.diagonalization.__dict__, initial_guess=None), # Discarding initial guess
+        "bool_interactions" : data_computations.data.bool_interactions.__dict__,
+        "determinants" : data_computations.determinants, 
+        "hamiltonian" : {
+            "data" : data_computations.hamiltonian.data.tolist(),
+            "indices" : data_computations.hamiltonian.indices.tolist(),
+            "indptr" : data_computations.hamiltonian.indptr.tolist()
+        }, 
+        "eigenstates" : {
+            "eigvals" : data_computations.eigenstates.eigvals,
+            "spins" : data_computations.eigenstates.spins,
+            "eigvects" : data_computations.eigenstates.eigvects.tolist()
+            }
+    })
 
 
 # Embedding in neighboring blocks
@@ -811,42 +789,20 @@ def save_data_embedding_blocks(data_computations, dynamic_embedding, neel_embedd
         file_name += ".json"
  
     # Saving results
-    try :
-        with open("./initialComputations/Embedding_blocks/{}".format(file_name), "w") as savefile:
-            savefile.write(json.dumps({
-                "configuration" : configuration.__to_json__(), 
-                "interactions" : data_computations.data.interactions.__dict__, 
-                "diagonalization" : data_computations.data.diagonalization.__dict__, 
-                "bool_interactions" : data_computations.data.bool_interactions.__dict__,
-                "determinants" : data_computations.determinants, 
-                "hamiltonian" : {
-                    "data" : data_computations.hamiltonian.data.tolist(),
-                    "indices" : data_computations.hamiltonian.indices.tolist(),
-                    "indptr" : data_computations.hamiltonian.indptr.tolist()
-                }, 
-                "eigenstates" : {
-                    "eigvals" : data_computations.eigenstates.eigvals,
-                    "spins" : data_computations.eigenstates.spins,
-                    "eigvects" : data_computations.eigenstates.eigvects.tolist()
-                    }
-            })) 
-    except OSError:
-        os.mkdir("./initialComputations/Embedding_blocks")
-        with open("./initialComputations/Embedding_blocks/{}".format(file_name), "w") as savefile:
-            savefile.write(json.dumps({
-                "configuration" : configuration.__to_json__(), 
-                "interactions" : data_computations.data.interactions.__dict__, 
-                "diagonalization" : data_computations.data.diagonalization.__dict__, 
-                "bool_interactions" : data_computations.data.bool_interactions.__dict__,
-                "determinants" : data_computations.determinants, 
-                "hamiltonian" : {
-                    "data" : data_computations.hamiltonian.data.tolist(),
-                    "indices" : data_computations.hamiltonian.indices.tolist(),
-                    "indptr" : data_computations.hamiltonian.indptr.tolist()
-                }, 
-                "eigenstates" : {
-                    "eigvals" : data_computations.eigenstates.eigvals,
-                    "spins" : data_computations.eigenstates.spins,
-                    "eigvects" : data_computations.eigenstates.eigvects.tolist()
-                    }
-            })) 
\ No newline at end of file
+    iC.write_results("Embedding_blocks/{}".format(file_name), {
+        "configuration" : configuration.__to_json__(), 
+        "interactions" : data_computations.data.interactions.__dict__, 
+        "diagonalization" : dict(data_computations.data.diagonalization.__dict__, initial_guess=None), # Discarding initial guess
+        "bool_interactions" : data_computations.data.bool_interactions.__dict__,
+        "determinants" : data_computations.determinants, 
+        "hamiltonian" : {
+            "data" : data_computations.hamiltonian.data.tolist(),
+            "indices" : data_computations.hamiltonian.indices.tolist(),
+            "indptr" : data_computations.hamiltonian.indptr.tolist()
+        }, 
+        "eigenstates" : {
+            "eigvals" : data_computations.eigenstates.eigvals,
+            "spins" : data_computations.eigenstates.spins,
+            "eigvects" : data_computations.eigenstates.eigvects.tolist()
+            }
+    })
diff --git a/initialComputations.py b/initialComputations.py
index b31b0e5..b9e536e 100644
--- a/initialComputations.py
+++ b/initialComputations.py
@@ -11,6 +11,7 @@ import os
 import numpy as np
 np.set_printoptions(threshold=sys.maxsize)
 import json
+import uuid
 
 import scipy.sparse as sp
 import time
@@ -177,25 +178,47 @@ def save_data(data_computations):
         file_name += ".json"
  
     # Saving results
-    with open("./initialComputations/{}".format(file_name), "w") as savefile:
-        savefile.write(json.dumps({
-            "configuration" : configuration_dict, 
-            "interactions" : data_computations.data.interactions.__dict__, 
-            "diagonalization" : data_computations.data.diagonalization.__dict__, 
-            "bool_interactions" : data_computations.data.bool_interactions.__dict__,
-            "determinants" : data_computations.determinants, 
-            "hamiltonian" : {
-                "data" : data_computations.hamiltonian.data.tolist(),
-                "indices" : data_computations.hamiltonian.indices.tolist(),
-                "indptr" : data_computations.hamiltonian.indptr.tolist()
-            }, 
-            "eigenstates" : {
-                "eigvals" : data_computations.eigenstates.eigvals,
-                "spins" : data_computations.eigenstates.spins,
-                "eigvects" : data_computations.eigenstates.eigvects.tolist()
-                },
-            "times" : data_computations.times.__dict__
-        }))
+    write_results(file_name, {
+        "configuration" : configuration_dict, 
+        "interactions" : data_computations.data.interactions.__dict__, 
+        "diagonalization" : data_computations.data.diagonalization.__dict__, 
+        "bool_interactions" : data_computations.data.bool_interactions.__dict__,
+        "determinants" : data_computations.determinants, 
+        "hamiltonian" : {
+            "data" : data_computations.hamiltonian.data.tolist(),
+            "indices" : data_computations.hamiltonian.indices.tolist(),
+            "indptr" : data_computations.hamiltonian.indptr.tolist()
+        }, 
+        "eigenstates" : {
+            "eigvals" : data_computations.eigenstates.eigvals,
+            "spins" : data_computations.eigenstates.spins,
+            "eigvects" : data_computations.eigenstates.eigvects.tolist()
+            },
+        "times" : data_computations.times.__dict__
+    })
+
+def write_results(file_name, results):
+    """
+    Writes the results in the file ./initialComputations/file_name in a JSON format. The file is replaced at once : \
+        it contains either its former results or the new ones, even if the writing is interrupted.
+    Args:
+        file_name (str): the name of the file
+        results (dict): the serialized results
+    """
+    serialized_results = json.dumps(results)
+    file_path = os.path.join("./initialComputations", file_name)
+    os.makedirs(os.path.dirname(file_path), exist_ok=True)
+    temp_path = "{}.{}.tmp".format(file_path, uuid.uuid4().hex)
+    try:
+        with open(temp_path, "x") as savefile:
+            savefile.write(serialized_results)
+            savefile.flush()
+            os.fsync(savefile.fileno())
+        os.replace(temp_path, file_path)
+    except BaseException:
+        if os.path.exists(temp_path):
+            os.remove(temp_path)
+        raise
 
 def recover_results(configuration, interactions, diagonalization, bool_interactions, determinants, hamiltonian, eigenstates, **kwargs):
     """
-- 
2.43.0


From 07db8408ea276fa3dbb320259a7c214f3719b685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:08 +0000
Subject: [PATCH 13/18] fix: create the directories of the figures, whatever
 the missing parents

---
 postProcessing.py | 110 ++++++++++++++++------------------------------
 1 file changed, 39 insertions(+), 71 deletions(-)

diff --git a/postProcessing.py b/postProcessing.py
index 316fdfb..1870880 100644
--- a/postProcessing.py
+++ b/postProcessing.py
@@ -48,6 +48,17 @@ class InputPlotting :
         self.bool_dynamic_embedding = bool_dynamic_embedding
         self.bool_neighbor_embedding = bool_neighbor_embedding
 
+def save_figure(figure, file_name, **kwargs):
+    """
+    Saves a figure, and creates the directory of the file if needed.
+    Args:
+        figure (class matplotlib.figure.Figure): the figure to save
+        file_name (str): the name of the file
+        kwargs : the arguments of matplotlib.figure.Figure.savefig
+    """
+    os.makedirs(os.path.dirname(file_name), exist_ok=True)
+    figure.savefig(file_name, **kwargs)
+
 def generate_plots_configuration(data, input_plotting):
     """
     Generates the different plots defined below for a certain configuration.
@@ -339,13 +350,8 @@ def plot_spectrum_dependance(data): # Not complete, problem with colors of overl
     ax1.set_xlabel("t/J")
     ax1.set_ylabel("E")
 
-    try :
-        plt.savefig("./tJ-HamCsr/tJ-H{}/ParametrizedSpectrum/tJ-H{}{}{}.png".format(configuration_tJ.nsites, configuration_tJ.nsites, configuration_tJ.nalpha, configuration_tJ.nbeta))
-        plt.savefig("./tJ-HamCsr/tJ-H{}/ParametrizedSpectrum/tJ-H{}{}{}.pdf".format(configuration_tJ.nsites, configuration_tJ.nsites, configuration_tJ.nalpha, configuration_tJ.nbeta))
-    except OSError:
-        os.mkdir(path = "./tJ-HamCsr/tJ-H{}/ParametrizedSpectrum/".format(configuration_tJ.nsites))
-        plt.savefig("./tJ-HamCsr/tJ-H{}/ParametrizedSpectrum/tJ-H{}{}{}.png".format(configuration_tJ.nsites, configuration_tJ.nsites, configuration_tJ.nalpha, configuration_tJ.nbeta))
-        plt.savefig("./tJ-HamCsr/tJ-H{}/ParametrizedSpectrum/tJ-H{}{}{}.pdf".format(configuration_tJ.nsites, configuration_tJ.nsites, configuration_tJ.nalpha, configuration_tJ.nbeta))
+    save_figure(plt.gcf(), "./tJ-HamCsr/tJ-H{}/ParametrizedSpectrum/tJ-H{}{}{}.png".format(configuration_tJ.nsites, configuration_tJ.nsites, configuration_tJ.nalpha, configuration_tJ.nbeta))
+    save_figure(plt.gcf(), "./tJ-HamCsr/tJ-H{}/ParametrizedSpectrum/tJ-H{}{}{}.pdf".format(configuration_tJ.nsites, configuration_tJ.nsites, configuration_tJ.nalpha, configuration_tJ.nbeta))
 
 
     fig2 = plt.figure()
@@ -358,13 +364,8 @@ def plot_spectrum_dependance(data): # Not complete, problem with colors of overl
     ax2.set_xlabel("t/J")
     ax2.set_ylabel("E")
 
-    try :
-        plt.savefig("./tJ-HamCsr/tJ-H{}/ParametrizedSpectrum/tJ-H{}{}{}-extended.png".format(configuration_tJ.nsites, configuration_tJ.nsites, configuration_tJ.nalpha, configuration_tJ.nbeta))
-        plt.savefig("./tJ-HamCsr/tJ-H{}/ParametrizedSpectrum/tJ-H{}{}{}-extended.pdf".format(configuration_tJ.nsites, configuration_tJ.nsites, configuration_tJ.nalpha, configuration_tJ.nbeta))
-    except OSError:
-        os.mkdir(path = "./tJ-HamCsr/tJ-H{}/ParametrizedSpectrum/".format(configuration_tJ.nsites))
-        plt.savefig("./tJ-HamCsr/tJ-H{}/ParametrizedSpectrum/tJ-H{}{}{}-extended.png".format(configuration_tJ.nsites, configuration_tJ.nsites, configuration_tJ.nalpha, configuration_tJ.nbeta))
-        plt.savefig("./tJ-HamCsr/tJ-H{}/ParametrizedSpectrum/tJ-H{}{}{}-extended.pdf".format(configuration_tJ.nsites, configuration_tJ.nsites, configuration_tJ.nalpha, configuration_tJ.nbeta))
+    save_figure(plt.gcf(), "./tJ-HamCsr/tJ-H{}/ParametrizedSpectrum/tJ-H{}{}{}-extended.png".format(configuration_tJ.nsites, configuration_tJ.nsites, configuration_tJ.nalpha, configuration_tJ.nbeta))
+    save_figure(plt.gcf(), "./tJ-HamCsr/tJ-H{}/ParametrizedSpectrum/tJ-H{}{}{}-extended.pdf".format(configuration_tJ.nsites, configuration_tJ.nsites, configuration_tJ.nalpha, configuration_tJ.nbeta))
 
 
 def save_phase_space(data, nb_state, nb_t, nb_v):
@@ -465,7 +466,7 @@ def save_phase_space(data, nb_state, nb_t, nb_v):
         
         plt.tight_layout()
         
-        plt.savefig("./tJ-HamCsr/tJ-H{}/PhaseDiagrams/tJ-H{}{}{}.png".format(str(nsites),str(nsites),str(nalpha),str(nbeta)), 
+        save_figure(plt.gcf(), "./tJ-HamCsr/tJ-H{}/PhaseDiagrams/tJ-H{}{}{}.png".format(str(nsites),str(nsites),str(nalpha),str(nbeta)), 
             dpi=None, facecolor='w', edgecolor='w',
             orientation='portrait', format=None,
             transparent=False, bbox_inches=None, pad_inches=0.1,
@@ -523,7 +524,7 @@ def save_spectrum(data_computation):
     
     # Saving the spectrum
     
-    fig.savefig("./tJ-HamCsr/tJ-H{}/Spectrum/tJ-H{}{}{}.png".format(str(nsites),str(nsites),str(nalpha),str(nbeta)))
+    save_figure(fig, "./tJ-HamCsr/tJ-H{}/Spectrum/tJ-H{}{}{}.png".format(str(nsites),str(nsites),str(nalpha),str(nbeta)))
 
     plt.close()
     
@@ -610,19 +611,11 @@ def save_hole_probability_lattice(data_computation,nb_subplots):
                 file_name += extensions[name]
         file_name += ".png"
 
-    try :
-        plt.savefig(file_name, 
-            dpi=None, facecolor='w', edgecolor='w',
-            orientation='portrait', format=None,
-            transparent=False, bbox_inches=None, pad_inches=0.1,
-            metadata=None)
-    except FileNotFoundError :
-        os.mkdir("./tJ-HamCsr/tJ-H{}/HolePresenceProbability/".format(str(nsites)))
-        plt.savefig(file_name, 
-            dpi=None, facecolor='w', edgecolor='w',
-            orientation='portrait', format=None,
-            transparent=False, bbox_inches=None, pad_inches=0.1,
-            metadata=None)
+    save_figure(plt.gcf(), file_name, 
+        dpi=None, facecolor='w', edgecolor='w',
+        orientation='portrait', format=None,
+        transparent=False, bbox_inches=None, pad_inches=0.1,
+        metadata=None)
     plt.close()
 
 def save_electron_probability_lattice(data_computation, nb_state): 
@@ -709,38 +702,20 @@ def save_electron_probability_lattice(data_computation, nb_state):
 
         plt.tight_layout()
         if nb_state == 0:
-            try:
-                plt.savefig("./tJ-HamCsr/tJ-H{}/SpinDistribution/GroundState/tJ-H{}{}{}.png".format(\
-                    str(nsites), str(nsites), str(nalpha), str(nbeta)), 
-                    dpi=None, facecolor='w', edgecolor='w',
-                    orientation='portrait', format=None,
-                    transparent=False, bbox_inches=None, pad_inches=0.1,
-                    metadata=None)
-            except FileNotFoundError :
-                os.mkdir(path = "./tJ-HamCsr/tJ-H{}/SpinDistribution/GroundState".format(nsites))
-                plt.savefig("./tJ-HamCsr/tJ-H{}/SpinDistribution/GroundState/tJ-H{}{}{}.png".format(\
-                    str(nsites), str(nsites), str(nalpha), str(nbeta)), 
-                    dpi=None, facecolor='w', edgecolor='w',
-                    orientation='portrait', format=None,
-                    transparent=False, bbox_inches=None, pad_inches=0.1,
-                    metadata=None)
+            save_figure(plt.gcf(), "./tJ-HamCsr/tJ-H{}/SpinDistribution/GroundState/tJ-H{}{}{}.png".format(\
+                str(nsites), str(nsites), str(nalpha), str(nbeta)), 
+                dpi=None, facecolor='w', edgecolor='w',
+                orientation='portrait', format=None,
+                transparent=False, bbox_inches=None, pad_inches=0.1,
+                metadata=None)
 
         else:
-            try :
-                plt.savefig("./tJ-HamCsr/tJ-H{}/SpinDistribution/Excited{}/tJ-H{}{}{}.png".format(\
-                    str(nsites), str(nb_state), str(nsites), str(nalpha), str(nbeta)), 
-                    dpi=None, facecolor='w', edgecolor='w',
-                    orientation='portrait', format=None,
-                    transparent=False, bbox_inches=None, pad_inches=0.1,
-                    metadata=None)
-            except FileNotFoundError :
-                os.mkdir("./tJ-HamCsr/tJ-H{}/SpinDistribution/Excited{}".format(str(nsites), str(nb_state)))
-                plt.savefig("./tJ-HamCsr/tJ-H{}/SpinDistribution/Excited{}/tJ-H{}{}{}.png".format(\
-                    str(nsites), str(nb_state), str(nsites), str(nalpha), str(nbeta)), 
-                    dpi=None, facecolor='w', edgecolor='w',
-                    orientation='portrait', format=None,
-                    transparent=False, bbox_inches=None, pad_inches=0.1,
-                    metadata=None)
+            save_figure(plt.gcf(), "./tJ-HamCsr/tJ-H{}/SpinDistribution/Excited{}/tJ-H{}{}{}.png".format(\
+                str(nsites), str(nb_state), str(nsites), str(nalpha), str(nbeta)), 
+                dpi=None, facecolor='w', edgecolor='w',
+                orientation='portrait', format=None,
+                transparent=False, bbox_inches=None, pad_inches=0.1,
+                metadata=None)
         plt.close()
 
 ### Amplitudes
@@ -790,7 +765,7 @@ def plot_determinants_amplitude_repartition(data_computation, nb_subplots):
 
     plt.tight_layout()
         
-    plt.savefig("./tJ-HamCsr/tJ-H{}/DeterminantsAmplitude/tJ-H{}{}{}.png".format(\
+    save_figure(plt.gcf(), "./tJ-HamCsr/tJ-H{}/DeterminantsAmplitude/tJ-H{}{}{}.png".format(\
         str(nsites), str(nsites), str(nalpha), str(nbeta)), 
         dpi=None, facecolor='w', edgecolor='w',
         orientation='portrait', format=None,
@@ -869,15 +844,8 @@ def plot_embedding_effect_on_determinants(data_computations_cluster, data_comput
 
     #fig.suptitle("Influence of the static embedding in a Néel lattice on the amplitudes of the Slater determinants.")
 
-    try :
-        plt.savefig("./tJ-HamCsr/tJ-H{}/AmplitudesStaticEmbeddingNeel/tJ-H{}{}{}.png".format(\
-            str(nsites), str(nsites), str(nalpha), str(nbeta)))
-        plt.savefig("./tJ-HamCsr/tJ-H{}/AmplitudesStaticEmbeddingNeel/tJ-H{}{}{}.pdf".format(\
-            str(nsites), str(nsites), str(nalpha), str(nbeta)))
-    except OSError:
-        os.mkdir(path = "./tJ-HamCsr/tJ-H{}/AmplitudesStaticEmbeddingNeel/".format(nsites))
-        plt.savefig("./tJ-HamCsr/tJ-H{}/AmplitudesStaticEmbeddingNeel/tJ-H{}{}{}.png".format(\
-            str(nsites), str(nsites), str(nalpha), str(nbeta)))
-        plt.savefig("./tJ-HamCsr/tJ-H{}/AmplitudesStaticEmbeddingNeel/tJ-H{}{}{}.pdf".format(\
-            str(nsites), str(nsites), str(nalpha), str(nbeta)))
+    save_figure(plt.gcf(), "./tJ-HamCsr/tJ-H{}/AmplitudesStaticEmbeddingNeel/tJ-H{}{}{}.png".format(\
+        str(nsites), str(nsites), str(nalpha), str(nbeta)))
+    save_figure(plt.gcf(), "./tJ-HamCsr/tJ-H{}/AmplitudesStaticEmbeddingNeel/tJ-H{}{}{}.pdf".format(\
+        str(nsites), str(nsites), str(nalpha), str(nbeta)))
 
-- 
2.43.0


From a5457e0186fdb2f865df0a3308e7c649bd8eb2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:08 +0000
Subject: [PATCH 14/18] fix: allow a single subplot in the densities and
 amplitudes figures

---
 postProcessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/postProcessing.py b/postProcessing.py
index 1870880..029f2e1 100644
--- a/postProcessing.py
+++ b/postProcessing.py
@@ -540,7 +540,7 @@ def save_hole_probability_lattice(data_computation,nb_subplots):
 
     nb_plot = int(mp.floor(mp.sqrt(nb_subplots))**2)
     nb_row = int(mp.sqrt(nb_plot))
-    fig, ax = plt.subplots(nb_row,nb_row)
+    fig, ax = plt.subplots(nb_row, nb_row, squeeze=False)
 
     # Configuration
     configuration = data_computation.data.configuration
@@ -731,7 +731,7 @@ def plot_determinants_amplitude_repartition(data_computation, nb_subplots):
     
     nb_plot = int(mp.floor(mp.sqrt(nb_subplots))**2)
     nb_row = int(mp.sqrt(nb_plot))
-    fig, ax = plt.subplots(nb_row, nb_row)
+    fig, ax = plt.subplots(nb_row, nb_row, squeeze=False)
 
     # Configuration
     configuration = data_computation.data.configuration
-- 
2.43.0


From 653d79139a786a01da321d27706b0f821ef85514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:39 +0000
Subject: [PATCH 15/18] fix: keep the lattice type of the configuration along a
 sweep

---
 initialComputations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/initialComputations.py b/initialComputations.py
index b9e536e..2e405b6 100644
--- a/initialComputations.py
+++ b/initialComputations.py
@@ -309,6 +309,7 @@ def perform_configurations_computations(data):
             nholes=nholes, 
             nbeta=nbeta, 
             sites_restriction=configuration.sites_restriction, 
+            lattice_type=configuration.lattice_type, 
             nbh=configuration.nbh, 
             nbv=configuration.nbv, 
             nblocs_side=configuration.nblocs_side)
-- 
2.43.0


From e2326dbb05b936e89d0f428d7b5ca964c3cff52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:16 +0000
Subject: [PATCH 16/18] fix: find orthogonal bonds of clusters whose bond
 matrix has degenerate eigenvalues

---
 baseConstruction.py | 55 ++++-----------------------------------------
 1 file changed, 4 insertions(+), 51 deletions(-)

diff --git a/baseConstruction.py b/baseConstruction.py
index 17d7aea..daa2976 100644
--- a/baseConstruction.py
+++ b/baseConstruction.py
@@ -5,7 +5,7 @@ import scipy.special as spec
 
 import latticeFunctions as lF
 
-from itertools import combinations, permutations, product
+from itertools import combinations, permutations
 from tqdm import tqdm, trange # Install tqdm via pip    
 
 class Configuration :
@@ -353,56 +353,9 @@ def is_bond_linear(configuration, site1, site2, site3): # Should implement metho
                     return False
 
             
-    else: # We look for the permutation of the sites indices that makes the indexing as in a lattice of type 'periodic'
-        configuration_periodic = copy.deepcopy(configuration)
-        configuration_periodic.bond_matrix = lF.build_rectangular_bond_matrix(configuration.nbh, configuration.nbv, configuration.nblocs_side)
-        configuration_periodic.lattice_type = 'periodic'
-        nbh, nbv, nblocs_side, nsites = configuration.nbh, configuration.nbv, configuration.nblocs_side, configuration.nsites
-        
-        bond_matrix_clusters = configuration.bond_matrix
-        bond_matrix_periodic = lF.build_rectangular_bond_matrix(nbh, nbv, nblocs_side)
-
-        # We compute transfer_matrix, the matrix of the permutation of sites from the cluster type indexing (or any other indexing) to the periodic type indexing
-        # so that we find the indexes of the considered sites in a periodic type indexing
-
-        clusters_eigenstates = np.linalg.eigh(bond_matrix_clusters)
-        clusters_eigenvectors = clusters_eigenstates[1]
-
-        periodic_eigenstates = np.linalg.eigh(bond_matrix_periodic)
-        periodic_eigenvectors = periodic_eigenstates[1]
-
-        # We find that, if C = bond_matrix_clusters, P = bond_matrix_periodic, and V = transfer_matrix, 
-        # with VCV.T = P and C = UDU.T, P = WDW.T, with D diagonal, it yields that W.TVU commutes with D, hence is diagonal : V=WD'U.T
-        # Given that V is unitary (VV.T=V.TV=I), (D')^2 = I so its diagonal coefficients are either 1 or -1
-        # We look for the correct D', that stabilizes 0 (V[0, 0] = 1) and make every coefficient of V live in [0, 1] (V[i, j] = 0 or 1)
-
-        possibles_diag = tuple(product([1, -1], repeat=nsites))
-        ind_diag = 0
-        is_permutation_matrix = False
-        while ind_diag < 2 ** nsites and not is_permutation_matrix :
-            commuting_matrix = np.diag(possibles_diag[ind_diag])
-            transfer_matrix = np.matmul(periodic_eigenvectors, np.matmul(commuting_matrix, clusters_eigenvectors.T))
-            if round(transfer_matrix[0, 0], 10) == 1.:
-                ind_row = 0
-                ind_col = 0
-                while ind_row < nsites and round(transfer_matrix[ind_row, ind_col], 10) in (0., 1.):
-                    if ind_col < nsites - 1:
-                        ind_col += 1
-                    else:
-                        ind_col = 0
-                        ind_row += 1
-                if ind_row == nsites:
-                    is_permutation_matrix = True
-                else:
-                    ind_diag += 1
-            else:
-                ind_diag += 1
-
-        new_s1 = [row for row in range(nsites) if round(transfer_matrix[row, site_1], 10) == 1][0]
-        new_s2 = [row for row in range(nsites) if round(transfer_matrix[row, site_2], 10) == 1][0]
-        new_s3 = [row for row in range(nsites) if round(transfer_matrix[row, site_3], 10) == 1][0]
-
-        return is_bond_linear(configuration_periodic, new_s1, new_s2, new_s3)
+    else: # Whatever the indexing, two bonds of a rectangular lattice are orthogonal if and only if they are sides of the same square, \
+        # i.e. if there is another site next to both of their ends
+        return len([site for site in range(configuration.nsites) if bond_matrix[site_1, site] and bond_matrix[site_3, site]]) == 1
 
 
 # Display functions
-- 
2.43.0


From bbe73c4336254588f160865b10a2c02618b46d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:16 +0000
Subject: [PATCH 17/18] fix: block embedding follows the ground state across
 symmetry sectors

---
 embedding.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/embedding.py b/embedding.py
index 4acc52d..31540ad 100644
--- a/embedding.py
+++ b/embedding.py
@@ -723,6 +723,12 @@ def embedding_blocks(data, self_consistency_tol, max_iter, dynamic_embedding=Fal
                 )
                 if eigenstates_embedded.eigvals:
                     break
+            # The symmetries of the isolated ground state may keep the diagonalizer away from the ground state of the embedded block
+            eigenstates_random = dav.modified_davidson_algorithm(
+                ham_block_embedded, nb_val=1, initial_guess=None, stp=stp, tol=tol, dim_max=dim_max, verbose=False
+            )
+            if eigenstates_random.eigvals[0] < eigenstates_embedded.eigvals[0] - tol:
+                eigenstates_embedded = eigenstates_random
             
             ground_state_embedded = eigenstates_embedded.eigvects[:,[0]]
             ground_state_energy = eigenstates_embedded.eigvals[0]
-- 
2.43.0


From af7ec268e3543f718ef2622ee1b81078608ff4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:11 +0000
Subject: [PATCH 18/18] fix: restore the CRLF line endings of davidson.py

---
 davidson.py | 776 ++++++++++++++++++++++++++--------------------------
 1 file changed, 388 insertions(+), 388 deletions(-)

diff --git a/davidson.py b/davidson.py
index e9d0f11..ad32edb 100644
--- a/davidson.py
+++ b/davidson.py
@@ -1,388 +1,388 @@
-import math as mp
-import numpy as np
-import numpy.linalg as lin
-np.set_printoptions(linewidth=1000)
-import scipy.sparse as sp
-import scipy.sparse.linalg as slin
-
-import copy
-
-import interactions as itr
-
-from tqdm import tqdm, trange # Install tqdm via pip
-
-class Diagonalization :
-    """
-    Class containing parameters for the diagonalization procedure.
-    """
-    def __init__(self, nb_val, stp, tol, dim_max, initial_guess=None):
-        """
-        Args:
-            nb_val (int): the number of lowest eigenstates to compute
-            stp (int): maximum number of steps
-            tol (float): tolerance for the stopping criteria
-            dim_max (int): limit to the dimension of the search space
-            initial_guess (np.array): the initial guess for the eigenstates
-        """
-        self.nb_val = nb_val
-        self.stp = int(stp)
-        self.tol = tol
-        self.dim_max = dim_max
-        self.initial_guess = initial_guess
-
-class Eigenstates :
-    """
-    Class describing the elements of a list of eigenstates.
-    """
-    def __init__(self, eigvals, spins, eigvects):
-        """
-        Args:
-            eigvals (list<float>): the list of eigenvalues
-            spins (list<float>): the list of spins of the corresponding eigenvectors
-            eigvects (list<np.array>): the list of corresponding eigenvectors
-        """
-        self.eigvals = eigvals
-        self.spins = spins
-        self.eigvects = eigvects
-
-### Davidson algorithm - projections onto unexplored eigenspaces
-
-def davidson_algorithm(A,stp,tol,prec):
-    """
-    Davidson algorithm, yield the lowest eigenstate of the matrix A.
-    Args:
-        A (np.array): diagonalizable matrix
-        stp (int): maximal number of steps
-        tol (float): tolerance for the stopping criteria
-        prec (float): expected precision of the final eigenstate
-    """
-    n = A.shape[0]
-    v0 = np.random.random((n,1))
-    V = np.array(v0)
-    H = np.matmul(V.T, np.matmul(A, V))
-    
-    (eigval, eigvect) = lin.eigh(H)
-    val = list(eigval)
-    ind_lowest = val.index(min(val))
-    lambdaj = eigval[ind_lowest]
-    yj = eigvect[:, [ind_lowest]]
-    
-    uj = np.dot(V, yj)
-    rj = np.dot(A, uj) - lambdaj*uj
-    if lin.norm(rj) < tol :
-        return (lambdaj, uj)
-    else:
-        Mj = lin.inv(np.diag(np.diag(A)) - lambdaj*np.eye(n))
-        tj = np.dot(Mj, rj)
-        V = perform_modified_gram_schmidt(np.append(V, tj, axis=1))
-    while lin.norm(rj) > tol:
-        for _ in range(stp):
-            H = np.matmul(V.T, np.matmul(A, V))
-            
-            (eigval, eigvect) = lin.eigh(H)
-            val = list(eigval)
-            ind_lowest = val.index(min(val))
-            lambdaj = eigval[ind_lowest]
-            yj = eigvect[:, [ind_lowest]]
-            
-            uj = np.dot(V, yj)
-            rj = np.dot(A, uj) - lambdaj*uj
-            if lin.norm(rj) < tol:
-                return (round(lambdaj, prec), uj)
-            else:
-                #Mj=lin.inv(np.diag(np.diag(A))-lambdaj*np.eye(n)) # Jacobi preconditionner
-                Mj = np.eye(n) # Lanczos method
-                tj = np.dot(Mj, rj)
-                V = perform_modified_gram_schmidt(np.append(V, tj, axis=1))
-
-    return (round(lambdaj, prec), uj)
-
-
-def get_lowests_eig(eigvals, eigvects, nb_eig): 
-    """
-    Return the nb_eig lowests eigenvalues and associated eigenvectors
-    Args:
-        eigvals (list<float> or np.array): the list of eigenvalues
-        eigvects (np.array): the corresponding eigenvectors
-    Returns:
-        val_sorted (list<float>): the nb_eig lowests eigenvalues
-        vect_sorted (np.array): the corresponding eigenvectors
-    """
-    eigvals_temp = copy.deepcopy(eigvals)
-    sorted_eigvals = list(sorted(eigvals_temp))[:nb_eig]
-    val_sorted = sorted(list(set(sorted_eigvals)))
-    sorted_indexes = []
-    for val in val_sorted:
-        val_indices = [ind for ind, elt in enumerate(eigvals_temp) if elt == val]
-        val_indices = val_indices[: min(len(val_indices), nb_eig - len(sorted_indexes))]
-        sorted_indexes += val_indices
-    vect_sorted = eigvects[:, sorted_indexes]
-    return (sorted_eigvals, vect_sorted)
-    
-def get_meaningful_corrections(krylov_basis, temp_corrections, droptol, eta, nu, dim_max):
-    """
-    Computes the meaningful corrections to perform in modified_davidson_algorithm
-    Args:
-        krylov_basis (np.array): the basis of the search subspace
-        temp_corrections (np.array): computed corrections, residues multiplied by the preconditionning matrix
-        droptol (float): drop-tolerance for the meaningful corrections
-        eta (float): threshold in the precision for the corrections
-        nu (int): the number of eigenstates yet to compute
-        dim_max (int): limit to the dimension of the search space
-    Returns:
-        corrections (np.array): the meaningful corrections to perform
-    """
-    dim = temp_corrections.shape[0]
-    corrections = np.copy(krylov_basis)
-    block_size_new = 0
-    max_orth = 2
-    for corr in range(nu):
-        ind_k = 0
-        while True :
-            old = lin.norm(temp_corrections[:, corr])
-            for ind_j in range(corrections.shape[1]):
-                temp_corrections[:, corr] = np.dot(np.eye(dim) - \
-                    np.dot(corrections[:,ind_j][:,None], corrections[:,ind_j][None,:]), temp_corrections[:, corr])
-            ind_k += 1
-            if (ind_k == max_orth - 1) or lin.norm(temp_corrections[:, corr]) > eta*old:
-                break
-        if lin.norm(temp_corrections[:, corr]) > droptol:
-            block_size_new += 1
-            correction = temp_corrections[:, [corr]]/lin.norm(temp_corrections[:, corr])
-            corrections = np.append(corrections, correction.tolist(), axis=1)
-    return corrections[:,-block_size_new:]
-
-
-def modified_davidson_algorithm_opt(A, nb_val, init_block_size, stp=100, tol=1e-3, droptol=1e-6, eta=0.1, dim_max=0):
-    """
-    Modified Davidson algorithm for simultaneous computation of the nb_val lowests eigenvectors of csr sparse matrix A0,\
-        using the Davidson preconditionners (C = (diag(A) - lambda_i*I)^-1)
-    Args:
-        A (scipy.sparse.csr_matrix): the matrix we seek to compute the eigenstates
-        nb_val (int): the number of eigenstates to compute
-        init_block_size (int): initial dimension of the search subspace
-        stp (int): maximum number of steps (default to 100)
-        tol (float): tolerance for the stopping criteria on residues (default to 1e-3)
-        eta (float): threshold in the precision for the corrections (0 << eta < 1, default to 0.1)
-        droptol (float): drop-tolerance for the meaningful corrections (default to 1e-6)
-        dim_max (int): limit to the dimension of the search space (default to the dimension of A)
-    Returns:
-        eigenstates (class Eigenstates): the eigenvalues and correponding eigenvectors
-    """
-    dim = A.shape[0]
-    if dim_max == 0:
-        dim_max = dim
-
-    nu_0 = max(init_block_size, nb_val)
-    nb_found = 0
-    block_size = nu_0
-
-    eigvals = []
-    eigvects = np.zeros((dim, nb_val))
-
-    krylov_basis = perform_modified_gram_schmidt(np.random.rand(dim, block_size))
-
-    for _ in range(stp):
-        # Krylov vectors
-        mat_w = A.dot(krylov_basis) 
-        # Rayleigh matrix
-        mat_rayleigh = np.matmul(krylov_basis.T, mat_w)
-        nu = min(mat_rayleigh.shape[0], nu_0 - nb_found)
-        # Eigenpairs
-        eigvals_temp, eigvects_temp = get_lowests_eig(*lin.eigh(mat_rayleigh), nu)
-        # Ritz vectors
-        ritz_vectors = np.matmul(krylov_basis, eigvects_temp)
-        # Residues
-        residues = np.zeros((dim, nu))
-        for col in range(nu):
-            residues[:,col] = eigvals_temp[col] * ritz_vectors[:,col] - np.dot(mat_w, eigvects_temp[:,col])
-        conv_residues = [lin.norm(residues[:,col]) <= tol for col in range(nu)]
-        nc = sum(conv_residues)
-        # Deflation
-        for col, res_ind in enumerate(conv_residues): # Adding converging eigenvector to the solutions
-            nbc = 0
-            if res_ind == True and nb_found < nb_val:
-                eigvals.append(eigvals_temp[col])
-                eigvects[:,nb_found + nbc] = ritz_vectors[:,col]
-                ritz_vectors[:, col], ritz_vectors[:, nbc] = ritz_vectors[:, nbc], ritz_vectors[:, col]
-                nbc += 1
-        nb_found += nc
-        if nb_found >= nb_val:
-            return Eigenstates(eigvals, [], eigvects)
-        # Correction of unsatisfactory residues
-        temp_corrections = np.zeros((dim, nu))
-        for ind in range(nc, nu):
-            temp_corrections[:,ind] = np.dot(lin.inv(np.diag(A.diagonal()) - eigvals_temp[ind]*np.eye(dim)), \
-            residues[:,ind])
-        # Meaningful corrections
-        corrections = get_meaningful_corrections(krylov_basis, temp_corrections, droptol, eta, nu, dim_max)
-        block_size_new = corrections.shape[1]
-        # Iteration
-        if (krylov_basis.shape[0] > dim_max - block_size_new) or (nc != 0) or (block_size_new == 0) : # restart
-            krylov_basis = perform_modified_gram_schmidt(np.concatenate((ritz_vectors[:,nc:], corrections), 1))
-            block_size = nu - nc + block_size_new
-        else : # expansion of the search subspace
-            krylov_basis = perform_modified_gram_schmidt(np.concatenate((krylov_basis, corrections), 1))
-            block_size = block_size_new
-    return Eigenstates(eigvals, [], eigvects)
-
-def modified_davidson_algorithm(A, nb_val, initial_guess=None, stp=100, tol=1e-3, dim_max=0, verbose=False):
-    """
-    Modified Davidson algorithm for simultaneous computation of the nb_val lowests eigenvectors of csr sparse matrix A0,\
-        using the Davidson preconditionners (C = (diag(A) - lambda_i*I)^-1)
-    Args:
-        A (scipy.sparse.csr_matrix): the matrix we seek to compute the eigenstates
-        nb_val (int): the number of eigenstates to compute
-        initial_guess (np.array): the initial guesses for the eigenvectors
-        stp (int): maximum number of steps (default to 100)
-        tol (float): tolerance for the stopping criteria on residues (default to 1e-3)
-        dim_max (int): limit to the dimension of the search space (default to the dimension of A)
-        verbose (bool): Tells if we want to display information about the progression of computations in the shell
-    Returns:
-        eigenstates (class Eigenstates): the eigenvalues and correponding eigenvectors
-    """
-    dim = A.shape[0]
-    if dim_max == 0:
-        dim_max = dim
-    nb_val = min(nb_val, dim_max, dim)
-
-    if initial_guess is None:
-        initial_guess = np.random.rand(dim, nb_val)
-    
-    # Krylov basis (basis of the search space)
-    krylov_basis = perform_modified_gram_schmidt(initial_guess)
-
-    for _ in trange_verbose(stp, verbose):
-        # Krylov vectors
-        mat_w = A.dot(krylov_basis) 
-        # Rayleigh matrix
-        mat_rayleigh = np.matmul(krylov_basis.T, mat_w)
-        # Eigenpairs
-        eigvals_temp, eigvects_temp = get_lowests_eig(*lin.eigh(mat_rayleigh), nb_val)
-        # Ritz vectors
-        ritz_vectors = np.matmul(krylov_basis, eigvects_temp)
-        # Residues
-        residues = np.zeros((dim, nb_val))
-        for col in range(nb_val):
-            residues[:,col] = eigvals_temp[col] * ritz_vectors[:,col] - np.dot(mat_w, eigvects_temp[:,col])
-        conv = True
-        for col in range(nb_val):
-            conv *= lin.norm(residues[:,col]) <= tol
-        if conv == True:
-            print_verbose("Norm of residues : {}".format([lin.norm(residues[:,col]) for col in range(nb_val)]), verbose)
-            return Eigenstates(eigvals_temp, [], ritz_vectors)
-        # Correction of unsatisfactory residues
-        corrections = np.zeros((dim, nb_val))
-        for ind in range(nb_val):
-            preconditionner = sp.csr_matrix(\
-                ([1 / (diag - eigvals_temp[ind]) if abs(diag - eigvals_temp[ind]) > 1e-12 else 1e12 for diag in A.diagonal()], (range(dim), range(dim)) ), \
-                shape=(dim, dim))
-            corrections[:,ind] = preconditionner.dot(residues[:,ind])
-        # Iteration
-        if dim_max < dim and krylov_basis.shape[1] > dim_max - nb_val : # restart
-            krylov_basis = perform_modified_gram_schmidt(np.concatenate((ritz_vectors, corrections), 1))
-        else : # expansion of the search subspace
-            krylov_basis = perform_modified_gram_schmidt(np.concatenate((krylov_basis, corrections), 1))
-    print_verbose("Maximum number of iterations exceeded, Davidson procedure could not converge.", verbose)
-    return Eigenstates(eigvals_temp, [], ritz_vectors)
-    
-    
-### Gram-Schmidt procedures
-    
-def perform_modified_gram_schmidt(V):
-    """
-    Performs the modified Gram Schmidt algorithm on a set of vectors vects
-    Args:
-        V (np.array): a set of vectors
-    Returns:
-        Q (np.array): the orthonormalized set of vectors from vects
-    """
-    Q, _ = lin.qr(V) 
-    return Q
-
-    
-def gramSchmidt(V): 
-    """
-    Gram-Schmidt orthonormalization procedure, orthonormalize the columns of the matrix V
-    Args:
-        V (np.array): the set of vectors to orthonormalize
-    Returns:
-        A (np.array): the orthonormalized set of vectors
-    """
-    dim = V.shape[0]
-    A = np.zeros(V.shape) # Orthonormalized columns of V
-    A[:,[0]] = V[:,[0]] / lin.norm(V[:,[0]])
-    for col in range(1, dim):
-        vect = V[:,[col]]
-        for prec in range(col):
-            vect_prec = A[:,[prec]]
-            vect = vect - (np.dot(vect.T, vect_prec) / np.dot(vect_prec.T, vect_prec)) * vect_prec
-        A[:,[col]] = vect / lin.norm(vect)
-    return A
-    
-def perform_matrix_orthogonal_projection(A, vects): # Not complete
-    """
-    Return the matrix A projected and restrained onto the orthogonal space to Span(vects)
-    Args:
-        A (np.array): A matrix
-        vects (np.array): an orthonormal basis of the subspace along which we want to project A
-    Returns:
-        A_proj (np.array): the projection and restriction of the matrix A onto :math:`vects^{\\perp}`
-    """
-    dim = A.shape[1]
-    dim_sub = vects.shape[1]
-    comp_basis = np.ones((dim, dim - dim_sub))
-    basis = np.append(vects, comp_basis, axis=1)
-    projector = perform_modified_gram_schmidt(basis) # orthogonal projector associated to the direct sum : Span(vects) + vects^{\perp}
-    A_proj = np.matmul(projector.T, np.matmul(A, projector))[dim_sub:,dim_sub:]
-    return A_proj
-    
-### Eigenvectors properties
-
-def compute_spin_and_multiplicity(basis, eigvects): # Not complete
-    """
-    Computes the expectation value of S^2 for each computed eigenvector
-    Args:
-        basis (class baseConstruction.Basis): the basis of our configuration
-        eigvect (np.array): the eigenvectors, expressed in this basis, that we want to calculate the spin multiplicity
-    Returns:
-        spins
-        multiplicity
-    """
-    nb_val = eigvects.shape[1]
-    spins = []
-    multiplicity = []
-
-    for ind in range(nb_val):
-        spin = itr.compute_S2_exp_val(basis, eigvects[:,[ind]])
-        spins.append(spin)
-        multiplicity.append(itr.compute_spin_multiplicity(spin))
-    return (spins,multiplicity)
-    
-
-### Utilities
-
-def print_verbose(string, verbose=False):
-    """
-    Prints the string in the shell only if verbose is True.
-    Args:
-        string (str): the string to print in the shell
-        verbose (bool): tells if we print or not string in the shell
-    """
-    if verbose:
-        print("[dav] ", string)
-
-def trange_verbose(steps, verbose=False):
-    """
-    Uses the tqdm package only if verbose == True
-    Args:
-        steps (int): our range
-        verbose (bool): tells if we want or not to print informations about the progression of computations in the shell
-    Returns:
-        range_iter (range or trange): either a range or trange object depending on verbose
-    """
-    if verbose:
-        return trange(steps)
-    else:
-        return range(steps)
-    
+import math as mp
+import numpy as np
+import numpy.linalg as lin
+np.set_printoptions(linewidth=1000)
+import scipy.sparse as sp
+import scipy.sparse.linalg as slin
+
+import copy
+
+import interactions as itr
+
+from tqdm import tqdm, trange # Install tqdm via pip
+
+class Diagonalization :
+    """
+    Class containing parameters for the diagonalization procedure.
+    """
+    def __init__(self, nb_val, stp, tol, dim_max, initial_guess=None):
+        """
+        Args:
+            nb_val (int): the number of lowest eigenstates to compute
+            stp (int): maximum number of steps
+            tol (float): tolerance for the stopping criteria
+            dim_max (int): limit to the dimension of the search space
+            initial_guess (np.array): the initial guess for the eigenstates
+        """
+        self.nb_val = nb_val
+        self.stp = int(stp)
+        self.tol = tol
+        self.dim_max = dim_max
+        self.initial_guess = initial_guess
+
+class Eigenstates :
+    """
+    Class describing the elements of a list of eigenstates.
+    """
+    def __init__(self, eigvals, spins, eigvects):
+        """
+        Args:
+            eigvals (list<float>): the list of eigenvalues
+            spins (list<float>): the list of spins of the corresponding eigenvectors
+            eigvects (list<np.array>): the list of corresponding eigenvectors
+        """
+        self.eigvals = eigvals
+        self.spins = spins
+        self.eigvects = eigvects
+
+### Davidson algorithm - projections onto unexplored eigenspaces
+
+def davidson_algorithm(A,stp,tol,prec):
+    """
+    Davidson algorithm, yield the lowest eigenstate of the matrix A.
+    Args:
+        A (np.array): diagonalizable matrix
+        stp (int): maximal number of steps
+        tol (float): tolerance for the stopping criteria
+        prec (float): expected precision of the final eigenstate
+    """
+    n = A.shape[0]
+    v0 = np.random.random((n,1))
+    V = np.array(v0)
+    H = np.matmul(V.T, np.matmul(A, V))
+    
+    (eigval, eigvect) = lin.eigh(H)
+    val = list(eigval)
+    ind_lowest = val.index(min(val))
+    lambdaj = eigval[ind_lowest]
+    yj = eigvect[:, [ind_lowest]]
+    
+    uj = np.dot(V, yj)
+    rj = np.dot(A, uj) - lambdaj*uj
+    if lin.norm(rj) < tol :
+        return (lambdaj, uj)
+    else:
+        Mj = lin.inv(np.diag(np.diag(A)) - lambdaj*np.eye(n))
+        tj = np.dot(Mj, rj)
+        V = perform_modified_gram_schmidt(np.append(V, tj, axis=1))
+    while lin.norm(rj) > tol:
+        for _ in range(stp):
+            H = np.matmul(V.T, np.matmul(A, V))
+            
+            (eigval, eigvect) = lin.eigh(H)
+            val = list(eigval)
+            ind_lowest = val.index(min(val))
+            lambdaj = eigval[ind_lowest]
+            yj = eigvect[:, [ind_lowest]]
+            
+            uj = np.dot(V, yj)
+            rj = np.dot(A, uj) - lambdaj*uj
+            if lin.norm(rj) < tol:
+                return (round(lambdaj, prec), uj)
+            else:
+                #Mj=lin.inv(np.diag(np.diag(A))-lambdaj*np.eye(n)) # Jacobi preconditionner
+                Mj = np.eye(n) # Lanczos method
+                tj = np.dot(Mj, rj)
+                V = perform_modified_gram_schmidt(np.append(V, tj, axis=1))
+
+    return (round(lambdaj, prec), uj)
+
+
+def get_lowests_eig(eigvals, eigvects, nb_eig): 
+    """
+    Return the nb_eig lowests eigenvalues and associated eigenvectors
+    Args:
+        eigvals (list<float> or np.array): the list of eigenvalues
+        eigvects (np.array): the corresponding eigenvectors
+    Returns:
+        val_sorted (list<float>): the nb_eig lowests eigenvalues
+        vect_sorted (np.array): the corresponding eigenvectors
+    """
+    eigvals_temp = copy.deepcopy(eigvals)
+    sorted_eigvals = list(sorted(eigvals_temp))[:nb_eig]
+    val_sorted = sorted(list(set(sorted_eigvals)))
+    sorted_indexes = []
+    for val in val_sorted:
+        val_indices = [ind for ind, elt in enumerate(eigvals_temp) if elt == val]
+        val_indices = val_indices[: min(len(val_indices), nb_eig - len(sorted_indexes))]
+        sorted_indexes += val_indices
+    vect_sorted = eigvects[:, sorted_indexes]
+    return (sorted_eigvals, vect_sorted)
+    
+def get_meaningful_corrections(krylov_basis, temp_corrections, droptol, eta, nu, dim_max):
+    """
+    Computes the meaningful corrections to perform in modified_davidson_algorithm
+    Args:
+        krylov_basis (np.array): the basis of the search subspace
+        temp_corrections (np.array): computed corrections, residues multiplied by the preconditionning matrix
+        droptol (float): drop-tolerance for the meaningful corrections
+        eta (float): threshold in the precision for the corrections
+        nu (int): the number of eigenstates yet to compute
+        dim_max (int): limit to the dimension of the search space
+    Returns:
+        corrections (np.array): the meaningful corrections to perform
+    """
+    dim = temp_corrections.shape[0]
+    corrections = np.copy(krylov_basis)
+    block_size_new = 0
+    max_orth = 2
+    for corr in range(nu):
+        ind_k = 0
+        while True :
+            old = lin.norm(temp_corrections[:, corr])
+            for ind_j in range(corrections.shape[1]):
+                temp_corrections[:, corr] = np.dot(np.eye(dim) - \
+                    np.dot(corrections[:,ind_j][:,None], corrections[:,ind_j][None,:]), temp_corrections[:, corr])
+            ind_k += 1
+            if (ind_k == max_orth - 1) or lin.norm(temp_corrections[:, corr]) > eta*old:
+                break
+        if lin.norm(temp_corrections[:, corr]) > droptol:
+            block_size_new += 1
+            correction = temp_corrections[:, [corr]]/lin.norm(temp_corrections[:, corr])
+            corrections = np.append(corrections, correction.tolist(), axis=1)
+    return corrections[:,-block_size_new:]
+
+
+def modified_davidson_algorithm_opt(A, nb_val, init_block_size, stp=100, tol=1e-3, droptol=1e-6, eta=0.1, dim_max=0):
+    """
+    Modified Davidson algorithm for simultaneous computation of the nb_val lowests eigenvectors of csr sparse matrix A0,\
+        using the Davidson preconditionners (C = (diag(A) - lambda_i*I)^-1)
+    Args:
+        A (scipy.sparse.csr_matrix): the matrix we seek to compute the eigenstates
+        nb_val (int): the number of eigenstates to compute
+        init_block_size (int): initial dimension of the search subspace
+        stp (int): maximum number of steps (default to 100)
+        tol (float): tolerance for the stopping criteria on residues (default to 1e-3)
+        eta (float): threshold in the precision for the corrections (0 << eta < 1, default to 0.1)
+        droptol (float): drop-tolerance for the meaningful corrections (default to 1e-6)
+        dim_max (int): limit to the dimension of the search space (default to the dimension of A)
+    Returns:
+        eigenstates (class Eigenstates): the eigenvalues and correponding eigenvectors
+    """
+    dim = A.shape[0]
+    if dim_max == 0:
+        dim_max = dim
+
+    nu_0 = max(init_block_size, nb_val)
+    nb_found = 0
+    block_size = nu_0
+
+    eigvals = []
+    eigvects = np.zeros((dim, nb_val))
+
+    krylov_basis = perform_modified_gram_schmidt(np.random.rand(dim, block_size))
+
+    for _ in range(stp):
+        # Krylov vectors
+        mat_w = A.dot(krylov_basis) 
+        # Rayleigh matrix
+        mat_rayleigh = np.matmul(krylov_basis.T, mat_w)
+        nu = min(mat_rayleigh.shape[0], nu_0 - nb_found)
+        # Eigenpairs
+        eigvals_temp, eigvects_temp = get_lowests_eig(*lin.eigh(mat_rayleigh), nu)
+        # Ritz vectors
+        ritz_vectors = np.matmul(krylov_basis, eigvects_temp)
+        # Residues
+        residues = np.zeros((dim, nu))
+        for col in range(nu):
+            residues[:,col] = eigvals_temp[col] * ritz_vectors[:,col] - np.dot(mat_w, eigvects_temp[:,col])
+        conv_residues = [lin.norm(residues[:,col]) <= tol for col in range(nu)]
+        nc = sum(conv_residues)
+        # Deflation
+        for col, res_ind in enumerate(conv_residues): # Adding converging eigenvector to the solutions
+            nbc = 0
+            if res_ind == True and nb_found < nb_val:
+                eigvals.append(eigvals_temp[col])
+                eigvects[:,nb_found + nbc] = ritz_vectors[:,col]
+                ritz_vectors[:, col], ritz_vectors[:, nbc] = ritz_vectors[:, nbc], ritz_vectors[:, col]
+                nbc += 1
+        nb_found += nc
+        if nb_found >= nb_val:
+            return Eigenstates(eigvals, [], eigvects)
+        # Correction of unsatisfactory residues
+        temp_corrections = np.zeros((dim, nu))
+        for ind in range(nc, nu):
+            temp_corrections[:,ind] = np.dot(lin.inv(np.diag(A.diagonal()) - eigvals_temp[ind]*np.eye(dim)), \
+            residues[:,ind])
+        # Meaningful corrections
+        corrections = get_meaningful_corrections(krylov_basis, temp_corrections, droptol, eta, nu, dim_max)
+        block_size_new = corrections.shape[1]
+        # Iteration
+        if (krylov_basis.shape[0] > dim_max - block_size_new) or (nc != 0) or (block_size_new == 0) : # restart
+            krylov_basis = perform_modified_gram_schmidt(np.concatenate((ritz_vectors[:,nc:], corrections), 1))
+            block_size = nu - nc + block_size_new
+        else : # expansion of the search subspace
+            krylov_basis = perform_modified_gram_schmidt(np.concatenate((krylov_basis, corrections), 1))
+            block_size = block_size_new
+    return Eigenstates(eigvals, [], eigvects)
+
+def modified_davidson_algorithm(A, nb_val, initial_guess=None, stp=100, tol=1e-3, dim_max=0, verbose=False):
+    """
+    Modified Davidson algorithm for simultaneous computation of the nb_val lowests eigenvectors of csr sparse matrix A0,\
+        using the Davidson preconditionners (C = (diag(A) - lambda_i*I)^-1)
+    Args:
+        A (scipy.sparse.csr_matrix): the matrix we seek to compute the eigenstates
+        nb_val (int): the number of eigenstates to compute
+        initial_guess (np.array): the initial guesses for the eigenvectors
+        stp (int): maximum number of steps (default to 100)
+        tol (float): tolerance for the stopping criteria on residues (default to 1e-3)
+        dim_max (int): limit to the dimension of the search space (default to the dimension of A)
+        verbose (bool): Tells if we want to display information about the progression of computations in the shell
+    Returns:
+        eigenstates (class Eigenstates): the eigenvalues and correponding eigenvectors
+    """
+    dim = A.shape[0]
+    if dim_max == 0:
+        dim_max = dim
+    nb_val = min(nb_val, dim_max, dim)
+
+    if initial_guess is None:
+        initial_guess = np.random.rand(dim, nb_val)
+    
+    # Krylov basis (basis of the search space)
+    krylov_basis = perform_modified_gram_schmidt(initial_guess)
+
+    for _ in trange_verbose(stp, verbose):
+        # Krylov vectors
+        mat_w = A.dot(krylov_basis) 
+        # Rayleigh matrix
+        mat_rayleigh = np.matmul(krylov_basis.T, mat_w)
+        # Eigenpairs
+        eigvals_temp, eigvects_temp = get_lowests_eig(*lin.eigh(mat_rayleigh), nb_val)
+        # Ritz vectors
+        ritz_vectors = np.matmul(krylov_basis, eigvects_temp)
+        # Residues
+        residues = np.zeros((dim, nb_val))
+        for col in range(nb_val):
+            residues[:,col] = eigvals_temp[col] * ritz_vectors[:,col] - np.dot(mat_w, eigvects_temp[:,col])
+        conv = True
+        for col in range(nb_val):
+            conv *= lin.norm(residues[:,col]) <= tol
+        if conv == True:
+            print_verbose("Norm of residues : {}".format([lin.norm(residues[:,col]) for col in range(nb_val)]), verbose)
+            return Eigenstates(eigvals_temp, [], ritz_vectors)
+        # Correction of unsatisfactory residues
+        corrections = np.zeros((dim, nb_val))
+        for ind in range(nb_val):
+            preconditionner = sp.csr_matrix(\
+                ([1 / (diag - eigvals_temp[ind]) if abs(diag - eigvals_temp[ind]) > 1e-12 else 1e12 for diag in A.diagonal()], (range(dim), range(dim)) ), \
+                shape=(dim, dim))
+            corrections[:,ind] = preconditionner.dot(residues[:,ind])
+        # Iteration
+        if dim_max < dim and krylov_basis.shape[1] > dim_max - nb_val : # restart
+            krylov_basis = perform_modified_gram_schmidt(np.concatenate((ritz_vectors, corrections), 1))
+        else : # expansion of the search subspace
+            krylov_basis = perform_modified_gram_schmidt(np.concatenate((krylov_basis, corrections), 1))
+    print_verbose("Maximum number of iterations exceeded, Davidson procedure could not converge.", verbose)
+    return Eigenstates(eigvals_temp, [], ritz_vectors)
+    
+    
+### Gram-Schmidt procedures
+    
+def perform_modified_gram_schmidt(V):
+    """
+    Performs the modified Gram Schmidt algorithm on a set of vectors vects
+    Args:
+        V (np.array): a set of vectors
+    Returns:
+        Q (np.array): the orthonormalized set of vectors from vects
+    """
+    Q, _ = lin.qr(V) 
+    return Q
+
+    
+def gramSchmidt(V): 
+    """
+    Gram-Schmidt orthonormalization procedure, orthonormalize the columns of the matrix V
+    Args:
+        V (np.array): the set of vectors to orthonormalize
+    Returns:
+        A (np.array): the orthonormalized set of vectors
+    """
+    dim = V.shape[0]
+    A = np.zeros(V.shape) # Orthonormalized columns of V
+    A[:,[0]] = V[:,[0]] / lin.norm(V[:,[0]])
+    for col in range(1, dim):
+        vect = V[:,[col]]
+        for prec in range(col):
+            vect_prec = A[:,[prec]]
+            vect = vect - (np.dot(vect.T, vect_prec) / np.dot(vect_prec.T, vect_prec)) * vect_prec
+        A[:,[col]] = vect / lin.norm(vect)
+    return A
+    
+def perform_matrix_orthogonal_projection(A, vects): # Not complete
+    """
+    Return the matrix A projected and restrained onto the orthogonal space to Span(vects)
+    Args:
+        A (np.array): A matrix
+        vects (np.array): an orthonormal basis of the subspace along which we want to project A
+    Returns:
+        A_proj (np.array): the projection and restriction of the matrix A onto :math:`vects^{\\perp}`
+    """
+    dim = A.shape[1]
+    dim_sub = vects.shape[1]
+    comp_basis = np.ones((dim, dim - dim_sub))
+    basis = np.append(vects, comp_basis, axis=1)
+    projector = perform_modified_gram_schmidt(basis) # orthogonal projector associated to the direct sum : Span(vects) + vects^{\perp}
+    A_proj = np.matmul(projector.T, np.matmul(A, projector))[dim_sub:,dim_sub:]
+    return A_proj
+    
+### Eigenvectors properties
+
+def compute_spin_and_multiplicity(basis, eigvects): # Not complete
+    """
+    Computes the expectation value of S^2 for each computed eigenvector
+    Args:
+        basis (class baseConstruction.Basis): the basis of our configuration
+        eigvect (np.array): the eigenvectors, expressed in this basis, that we want to calculate the spin multiplicity
+    Returns:
+        spins
+        multiplicity
+    """
+    nb_val = eigvects.shape[1]
+    spins = []
+    multiplicity = []
+
+    for ind in range(nb_val):
+        spin = itr.compute_S2_exp_val(basis, eigvects[:,[ind]])
+        spins.append(spin)
+        multiplicity.append(itr.compute_spin_multiplicity(spin))
+    return (spins,multiplicity)
+    
+
+### Utilities
+
+def print_verbose(string, verbose=False):
+    """
+    Prints the string in the shell only if verbose is True.
+    Args:
+        string (str): the string to print in the shell
+        verbose (bool): tells if we print or not string in the shell
+    """
+    if verbose:
+        print("[dav] ", string)
+
+def trange_verbose(steps, verbose=False):
+    """
+    Uses the tqdm package only if verbose == True
+    Args:
+        steps (int): our range
+        verbose (bool): tells if we want or not to print informations about the progression of computations in the shell
+    Returns:
+        range_iter (range or trange): either a range or trange object depending on verbose
+    """
+    if verbose:
+        return trange(steps)
+    else:
+        return range(steps)
+    
-- 
2.43.0

