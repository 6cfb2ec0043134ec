"""Writes /verif/known_findings.json: the defects repaired in /repo ("fixed" entries suppress nothing)."""
import json, subprocess
W = {
 'BaseTransformer.fit passes': ('C05', 'BaseTransformer.fit(X) handed (row, None) tuples instead of rows to fit_partial'),
 'WindowedMetric keeps': ('C08', 'WindowedMetric dropped the metric keyword arguments, so every window used a default metric'),
 'RunningStatistic passes': ('C02', 'RunningStatistic dropped the keyword arguments of the wrapped statistic, e.g. AbsStatistic could not be windowed'),
 'GaussianTailProbabilityCalibrator uses': ('C11', 'with running_statistics=False the calibrator still forgot scores older than window_size'),
 'RobustRandomCutForest forgets': ('C24', 'a full tree forgot index n - tree_size of the wrong counter, so trees held tree_size + 1 points or raised'),
 'StreamhashProjector keeps': ('C25', 'one component: transform_partial returned a scalar instead of a vector of length 1'),
 'VarianceMeter never': ('C17', 'rounding made the variance of a constant stream negative and the deviation NaN (also C01)'),
 'random projectors draw': ('C25', 'the random projectors drew a new projection matrix for every instance'),
 'HalfSpaceTrees accepts': ('C19', 'an array as initial_window_X raised ValueError (truth value of an array)'),
 'KitNET autoencoder scores': ('C26', 'the first scores after the feature map was learnt were NaN'),
 'KitNET maps a single': ('C26', 'a single-feature stream raised in the feature clustering'),
 'LODA chooses': ('C32', 'LODA re-drew which features each cut ignores at every call, so scores were not reproducible'),
 'LODA looks up': ('C32', 'LODA looked up the bin after the one that contains the projection'),
 'Data.get_iterator draws': ('C31', 'get_iterator shuffled lazily, after the seed may have been overtaken by other draws'),
 'Data loads': ('C31', 'a text data set with a single row raised IndexError'),
 'Inqmad scores with': ('C33', 'after its first score Inqmad scored every instance with the density matrix of that moment'),
 'Inqmad accumulates': ('C33', 'Inqmad kept only the most recently fitted instance'),
 'ExactStorm keeps': ('C37', 'ExactStorm stored the caller\'s array, so reusing the buffer changed the instances in its window'),
 'ReferenceWindowModel keeps': ('C37', 'ReferenceWindowModel stored the caller\'s instances and initial window by reference'),
 'RobustRandomCutForest keeps': ('C37', 'the trees held views of the caller\'s array'),
 'MAD and SAD keep': ('C37', 'MAD and SAD stored the caller\'s array in their median heaps (also C36: absolute deviations in small integer types wrapped)'),
 'SeasonalTrendDecomposer keeps': ('C37', 'the trend window held the caller\'s array'),
 'RelativeEntropy keeps': ('C37', 'the window held the caller\'s array'),
 'squares, medians': ('C36', 'squares, even-count medians and absolute values wrapped around in small integer types'),
 'KNNCAD distances': ('C36', 'differences of unsigned integers wrapped around in the distances'),
 'ReferenceWindowModel with an unlabelled': ('C22', 'an initial window without labels followed by labelled instances raised ValueError at the first refit'),
 'HalfSpaceTrees splits': ('C36', 'with whole-numbered feature bounds the split values of the nodes were truncated to integers'),
 'OneFitModel keeps': ('C37', 'OneFitModel handed the caller\'s arrays to the detector, which may go on referring to them (KNN does)'),
 'InstanceStandardScaler maps': ('C39', 'an instance with equal features was scaled to NaN (0 / 0)'),
 'InstanceUnitNormScaler leaves': ('C39', 'a zero instance was scaled to NaN (0 / 0)'),
 'z-score postprocessors report': ('C39', 'NaN for every score that equals all earlier ones (0 / 0)'),
 'KitNET autoencoders keep tied': ('C38', 'W_prime was a view of W that a deep copy or pickle unties, so training a copy went differently'),
 'SeasonalTrendDecomposer accepts numpy': ('C36', 'a numpy integer as window length raised TypeError'),
 'z-score postprocessors recognise': ('C39', 'rounding left a tiny variance for scores that are all equal (e.g. three times 0.1), and the score of an equal one was an arbitrary number instead of 0'),
 'InstanceStandardScaler recognises': ('C39', 'rounding left a tiny deviation for equal features such as 0.1, which were scaled to about -1 instead of 0'),
 'Gaussian calibration takes': ('C11', 'rounding left a tiny variance for scores that are all equal (e.g. 0.1), so an equal or slightly larger score got an arbitrary probability'),
 'LocalOutlierProbability keeps': ('C37', 'PyNomaly went on referring to the caller\'s initial instances, so changing them later changed the scores'),
}
out = []
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix:'):
        continue
    k = [v for p, v in W.items() if p in s]
    assert len(k) == 1, l
    out.append(dict(status='fixed', property=k[0][0], commit=h, what=k[0][1], text='fixed: property=%s %s %s' % (k[0][0], h, k[0][1])))
json.dump(out, open('/verif/known_findings.json', 'w'), indent=1)
print(len(out))
