def split_vector(vec):
    true_inds = np.where(vec)[0]
    half = len(true_inds) // 2
    first, second = np.zeros(len(vec), dtype=bool), np.zeros(len(vec), dtype=bool)
    first[true_inds[:half]] = True
    second[true_inds[half:]] = True
    return first, second


def recursive_split(mask, results=None, terminate_len=10):
    if results is None:
        results = []
    if np.sum(mask) <= terminate_len:
        results.append(mask)
        return results
    for half in split_vector(mask):
        recursive_split(half, results=results, terminate_len=terminate_len)
    return results


def get_masks(full_len, min_mask_len):
    assert 0 < min_mask_len < full_len
    masks = []
    for start in range(0, full_len, min_mask_len):
        mask = np.zeros(full_len, dtype=bool)
        mask[start:start + min_mask_len] = True
        masks.append(mask)
    return masks


class ConjugateGradientSolver(object):
    def __init__(self, eval_hessian_vector_product, x0):
        x0 = self.x0 = x0.copy()
        self.dim = len(x0)

        def matvec(vec):
            return eval_hessian_vector_product(x0, vec)

        self.ObjHessVecProdLO = LinearOperator((self.dim, self.dim), matvec)
        self.preconditioner = None
        self.tol = 1e-8
        self.initialize()

    def __record(self, mask, vec, seconds, hinv_vec, cg_info):
        self.masks.append(mask)
        self.vecs.append(vec)
        self.times.append(seconds)
        self.hinv_vecs.append(hinv_vec)
        self.cg_infos.append(cg_info)

    def get_hinv_vec(self, vec, x0=None):
        return sp.sparse.linalg.cg(
            self.ObjHessVecProdLO, vec, x0=x0, tol=self.tol, M=self.preconditioner)

    def get_hinv_vec_subsets(self, vec, masks, verbose=False, print_every=10):
        for ind, mask in enumerate(masks, 1):
            if verbose and print_every % ind == 0:
                print('{} of {}\n'.format(ind, len(masks)))
            vec_masked = np.zeros(len(vec))
            vec_masked[mask] = vec[mask]
            start = time.time()
            hinv_vec, cg_info = self.get_hinv_vec(vec_masked)
            self.__record(mask, vec_masked, time.time() - start, hinv_vec, cg_info)
