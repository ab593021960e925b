def split_vector(vec):
    true_inds = np.flatnonzero(vec)
    half = len(true_inds) // 2
    split_vec1 = np.zeros(len(vec), dtype=bool)
    split_vec2 = np.zeros(len(vec), dtype=bool)
    split_vec1[true_inds[:half]] = True
    split_vec2[true_inds[half:]] = True
    return split_vec1, split_vec2


def recursive_split(mask, results=None, terminate_len=10):
    results = [] if results is None else results
    if np.sum(mask) <= terminate_len:
        results.append(mask)
        return results
    for half in split_vector(mask):
        recursive_split(half, results=results, terminate_len=terminate_len)
    return results


def get_masks(full_len, min_mask_len):
    assert 0 < min_mask_len
    assert min_mask_len < full_len
    inds = np.arange(full_len)
    masks = []
    for start in range(0, full_len, min_mask_len):
        masks.append((inds >= start) & (inds < start + min_mask_len))
    return masks


class ConjugateGradientSolver(object):
    def get_hinv_vec(self, vec, x0=None):
        return sp.sparse.linalg.cg(
            self.ObjHessVecProdLO, vec, x0=x0, tol=self.tol, M=self.preconditioner)

    def get_hinv_vec_subsets(self, vec, masks, verbose=False, print_every=10):
        for ind, mask in enumerate(masks, 1):
            if verbose and print_every % ind == 0:
                print('{} of {}\n'.format(ind, len(masks)))
            vec_masked = np.where(mask, vec, 0.0)
            start = time.time()
            hinv_vec, cg_info = self.get_hinv_vec(vec_masked)
            self.times.append(time.time() - start)
            self.vecs.append(vec_masked)
            self.hinv_vecs.append(hinv_vec)
            self.cg_infos.append(cg_info)
            self.masks.append(mask)
