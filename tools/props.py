"""the properties, and what the manifest says of the check of each"""

PBT = 'property-based testing (Hypothesis)'

PROPS = []
NOT_APPLICABLE = []


def prop(id, title, statement, all, why, files, mechanism, how, note,
         over=('inputs',), observe=()):
    PROPS.append(dict(
        id=id, title=title, statement=' '.join(statement.split()),
        over=list(over), all=' '.join(all.split()),
        why=' '.join(why.split()), files=files, mechanism=mechanism,
        observe=list(observe), technique=PBT + ': ' + how,
        note=' '.join(note.split())))


prop(
    'C01', 'Indexing a unit-aware array returns numpy\'s values and right dimensions',
    '''Reading or assigning an array with dimensions by integers, slices,
    ellipsis, None, index lists, boolean masks, frequency bands, Hertz slices
    and time slices, in any combination and position, selects exactly the
    elements numpy selects on the raw array with the equivalent positions.
    Every axis of the result carries the dimension of the axis it came from,
    adjusted to the selection; new or irregular axes carry no units. Indexing
    never changes the array that was indexed, except that assignment changes
    exactly the elements that reading with the same index selects.''',
    '''every array of one to four axes, every mix of time, frequency and
    identity dimensions, every valid index expression''',
    '''the tests index a few fixed 2-D arrays with one index kind at a time;
    the cross product of index kinds, axes and dimension kinds is unbounded''',
    ['zounds/core/axis.py', 'zounds/core/dimensions.py',
     'zounds/timeseries/timeseries.py',
     'zounds/spectral/tfrepresentation.py'],
    [('index translation', 'zounds/core/axis.py CustomIndexArray / '
      'ArrayWithUnits.__getitem__'),
     ('per-dimension slices', 'Dimension.integer_based_slice, '
      'Dimension.modified_dimension')],
    'differential against numpy on the raw array, metamorphic between unit '
    'and positional indices',
    '''Generated arrays of up to four axes with sides up to about ten; the
    reference is numpy itself on the raw values plus a model of dimensions.''')

prop(
    'C02', 'A time slice selects exactly the samples it overlaps',
    '''Indexing a time dimension with a time slice, or with a start and stop
    time, returns exactly the samples whose time spans overlap the slice, up
    to the documented rounding of a stop that falls between samples, for
    every sample rate including overlapping samples. Slices laid end to end
    on sample boundaries partition a series whose samples don't overlap,
    negative and open bounds mean what they do for python lists, and audio
    sliced by time is audio at the same sample rate.''',
    'every frequency and duration of samples, series length and slice',
    '''the tests use a handful of rates and slices; rounding and overlap
    errors depend on the arithmetic relation of rate and bounds''',
    ['zounds/timeseries/timeseries.py', 'zounds/timeseries/constantrate.py',
     'zounds/timeseries/audiosamples.py'],
    [('integer_based_slice', 'zounds/timeseries/timeseries.py TimeDimension'),
     ('iteration by slices', 'zounds/timeseries/constantrate.py')],
    'exact-integer (picosecond) reference model of overlap',
    '''Rates cover audio sample rates, half-lapped windows, second-long and
    odd picosecond periods; series up to a few hundred samples.''')

prop(
    'C03', 'A frequency band selects exactly the bands of a scale it touches',
    '''Indexing a frequency dimension or a scale with a frequency band or a
    slice of Hertz returns exactly the coefficients of those bands of the
    scale which intersect it, on linear, geometric, perceptual (bark, mel),
    chroma and explicit scales. The scale of the result describes precisely
    the bands that were selected, so that later frequency queries against the
    sub-array give what the whole array gives for those bands.''',
    'every scale of every class, every band and chain of selections',
    '''the tests check a few scales and bands; the boundary cases depend on
    the geometry of each scale and on chains of slices''',
    ['zounds/spectral/frequencyscale.py',
     'zounds/spectral/tfrepresentation.py'],
    [('get_slice', 'zounds/spectral/frequencyscale.py FrequencyScale'),
     ('sliced scales', 'FrequencyScale.__getitem__ and its overrides'),
     ('modified dimension', 'zounds/spectral/tfrepresentation.py')],
    'oracle by inspecting every band; metamorphic chains of slices',
    '''A band that merely touches the lower edge of the query counts as
    selected and one that touches the upper edge does not, as the tests pin
    it. Scales of up to about 64 bands.''')

prop(
    'C04', 'Frequency scales and bands have the geometry they promise',
    '''A linear scale has equal adjacent bands that exactly cover its span, a
    geometric scale has centers in constant ratio and a constant ratio of
    bandwidth to center, perceptual scales have centers equally spaced on
    their perceptual axis, and every scale has as many bands as asked for.
    Intersection, intersection ratio, containment, overlap-ratio checks and
    equality of bands and scales agree with the intervals themselves, and
    equal bands hash alike. Hertz values behave like the numbers they
    hold.''',
    'every span, number of bands, bandwidth ratio and pair of bands or scales',
    '''the tests check a few constants; geometry must hold for every span and
    size''',
    ['zounds/spectral/frequencyscale.py'],
    [('scale construction', 'LinearScale, GeometricScale, BarkScale, '
      'MelScale, ExplicitScale'),
     ('interval algebra', 'FrequencyBand')],
    'invariants and interval-arithmetic oracle',
    'Checked to floating-point tolerance on generated spans up to 48 kHz.')

prop(
    'C05', 'Frequency scales and weightings act on the coefficients of their own bands',
    '''Applying a scale to a spectrum gives, per frame and band, the windowed
    sum of exactly the coefficients that lie in that band; a chromagram folds
    octaves so that a tone and its octaves fall in one of the twelve bins.
    Multiplying or dividing by a frequency weighting scales every coefficient
    by the weight of the band it belongs to, on any axis, for plain and for
    frequency-adaptive arrays, and for any range of their bands.''',
    'every scale, spectrum, window and weighting',
    '''the tests compare a few spectra with constants or shapes only''',
    ['zounds/spectral/frequencyscale.py', 'zounds/spectral/weighting.py',
     'zounds/spectral/frequencyadaptive.py', 'zounds/loudness/loudness.py',
     'zounds/spectral/tfrepresentation.py'],
    [('apply', 'FrequencyScale.apply, ChromaScale._basis'),
     ('weights', 'zounds/spectral/weighting.py FrequencyWeighting')],
    'slow reference implementation, linearity and octave metamorphic '
    'relations',
    'Scales of up to about 40 bands, spectra of up to a few hundred bins.')

prop(
    'C06', 'Shape-changing operations keep every dimension with its own axis',
    '''Reductions, reshaping, squeezing, transposing, dot products,
    concatenation and elementwise arithmetic on arrays with dimensions give
    numpy's values, and every axis that survives keeps its own dimension with
    its size. Concatenating arrays whose dimensions differ, or constructing
    an array whose dimensions don't fit its shape, is refused with
    ValueError; no operation changes its operands.''',
    'every array, dimension mix, axis choice and shape change',
    '''the tests try a few 2-D cases; dimensions get misattached only for
    particular axes, singleton sides and shapes''',
    ['zounds/core/axis.py', 'zounds/core/dimensions.py'],
    [('reductions', 'ArrayWithUnits._apply_reduction_to_dimensions'),
     ('reshape', 'ArrayWithUnits.reshape'),
     ('concatenation', 'ArrayWithUnits.concatenate')],
    'differential against numpy, dimension-tracking model',
    'Arrays of up to four axes, sides up to about ten.')

prop(
    'C07', 'Windowing covers a signal with exactly the windows asked for, once each',
    '''Cutting an array into windows of a given size and step gives every
    window the array holds, in order, each equal to the samples at its
    position and multiplied by the windowing function where there is one;
    with padding the trailing samples are kept too. The dimensions of the
    windows describe their times. A streaming sliding window gives the same
    windows whatever chunks the signal arrives in.''',
    'every array shape, axis, window size, step, windowing function and chunking',
    '''the tests use a few window sizes that divide the signal; the last
    window and chunk boundaries go wrong only for particular remainders''',
    ['zounds/nputil/npx.py', 'zounds/core/dimensions.py',
     'zounds/spectral/sliding_window.py', 'zounds/timeseries/audiosamples.py'],
    [('windowed', 'zounds/nputil/npx.py windowed'),
     ('sliding_window', 'ArrayWithUnits.sliding_window'),
     ('SlidingWindow', 'zounds/spectral/sliding_window.py')],
    'differential against direct slicing, chunking metamorphic relation',
    'Signals of up to a few hundred samples; windows of at least two samples.',
    over=('inputs', 'histories'))

prop(
    'C08', 'Sample rates and durations convert to and from each other consistently',
    '''A sample rate made from a number of samples per second, its
    frequency, duration, overlap, nyquist and band describe the same rate;
    comparison, multiplication, half-lapped and windowing rates are
    consistent with the definition; a rate found from a number of hertz is
    the one nearby; and durations in any unit keep their length.''',
    'every rate, duration, unit and multiplication factor',
    '''the tests check a few named rates; truncation to integer picoseconds
    goes wrong for particular rates and factors only''',
    ['zounds/timeseries/samplerate.py', 'zounds/timeseries/duration.py'],
    [('SampleRate', 'zounds/timeseries/samplerate.py'),
     ('durations', 'zounds/timeseries/duration.py')],
    'algebraic laws, integer-picosecond oracle',
    'Rates of one hertz to a few hundred kilohertz.')

prop(
    'C09', 'Time slices form an interval algebra, and time series keep their slices',
    '''Intersection, containment, addition, ordering and equality of time
    slices agree with half-open intervals of time. A time series of
    variable-rate slices keeps its slices in order with their data, finds
    exactly the slices that overlap a query, spans from the first start to
    the last end, concatenates, and survives being stored and read back.''',
    'every set of slices, and every query',
    '''the tests use a few slices; empty, touching, open-ended and
    overlapping slices are combinations they don't reach''',
    ['zounds/timeseries/timeseries.py', 'zounds/timeseries/variablerate.py',
     'zounds/timeseries/constantrate.py'],
    [('TimeSlice', 'zounds/timeseries/timeseries.py TimeSlice'),
     ('VariableRateTimeSeries', 'zounds/timeseries/variablerate.py')],
    'interval oracle on integer picoseconds, storage round trip',
    'Up to about ten slices per series.')

prop(
    'C10', 'Audio samples keep their signal, channels and sample rate',
    '''Mono and stereo conversion, silence, padding, arithmetic,
    construction, selection and encoding to lossless formats keep the
    samples, number of channels and sample rate that their names promise;
    unknown sample rates, missing time dimensions and wrong shapes are
    refused; lossy encoding keeps the length, the rate and the signal to
    within the format's error.''',
    'every signal, sample rate, channel count, duration and format',
    '''the tests check shapes of a few signals; the values and the off-by-one
    samples are decided only over many lengths and rates''',
    ['zounds/timeseries/audiosamples.py', 'zounds/synthesize/synthesize.py'],
    [('AudioSamples', 'zounds/timeseries/audiosamples.py'),
     ('SilenceSynthesizer', 'zounds/synthesize/synthesize.py')],
    'round trips, algebraic laws and a numpy reference',
    'Signals of up to about a second.')

prop(
    'C11', 'Reading audio through a stream loses and changes nothing, however it is cut',
    '''Decoding audio in chunks gives the same samples as decoding it at
    once, whatever the chunk size, channels and format; in-memory buffers and
    chunk sizes are first-in-first-out and exact; transcoding nodes keep the
    signal; resampling gives the expected length, keeps a tone's frequency
    and amplitude and doesn't depend on how its input was chunked; and a
    whole processing graph over audio agrees with processing it directly.''',
    'every signal, format, chunk size and schedule of reads and writes',
    '''the tests read one file with one chunk size and check lengths; lost or
    repeated samples depend on how chunks, buffers and headers line up''',
    ['zounds/soundfile/audiostream.py', 'zounds/soundfile/byte_depth.py',
     'zounds/soundfile/chunksize.py', 'zounds/soundfile/ogg_vorbis.py',
     'zounds/soundfile/resample.py'],
    [('AudioStream', 'zounds/soundfile/audiostream.py'),
     ('MemoryBuffer', 'zounds/soundfile/audiostream.py MemoryBuffer'),
     ('Resampler', 'zounds/soundfile/resample.py')],
    'chunked-against-whole metamorphic relation, FIFO model, tone oracle',
    'Signals of up to a few seconds; lossy formats within their tolerance.',
    over=('inputs', 'histories'))

prop(
    'C12', 'Frequency transforms compute their defining transform on the right axis',
    '''The Fourier, short-time Fourier, discrete cosine (II and IV) and
    modified discrete cosine transforms give the values of their defining
    sums, along the axis asked for, with energy kept, and a frequency axis
    that covers zero to the Nyquist frequency, so that a tone is found in the
    band it lies in. Phase shifts delay the signal by the time asked for;
    filter banks and wavelets resonate at their own bands; scales applied to
    spectra, bark bands, chroma, centroid, flatness, cepstra and rainbowgrams
    are what they are defined to be of the magnitudes and phases.''',
    'every signal, sample rate, axis, size, overlap, padding and window',
    '''the tests transform a few random arrays and mostly check shapes or
    types; which axis, sizes and window are used decides what goes wrong''',
    ['zounds/spectral/spectral.py', 'zounds/spectral/functional.py',
     'zounds/spectral/sliding_window.py', 'zounds/spectral/weighting.py'],
    [('fft, stft, phase_shift, filter banks',
      'zounds/spectral/functional.py'),
     ('transform nodes', 'zounds/spectral/spectral.py FFT, DCT, DCTIV, '
      'MDCT, BarkBands, Chroma, SpectralCentroid, BFCC')],
    'differential against the defining sums written out with numpy, energy '
    'and delay metamorphic relations, tone oracle',
    'Frames of up to about a hundred samples, a few dozen filters.')

prop(
    'C13', 'Synthesis inverts analysis, and adaptive representations keep their bands',
    '''Windowed, half-lapped frames analysed by FFT, DCT, DCT-IV or MDCT and
    synthesized again give the signal back; for any step between frames every
    inverted frame is added at its own time, directly and in a stored
    processing graph. Frequency-adaptive arrays and transforms and frequency
    decompositions keep each band's coefficients, invert to the signal and
    put a tone in its own band. Generated sines, noise, ticks and silence
    have the frequencies, lengths and range asked for.''',
    'every signal, frame size, overlap, band layout and kind of transform',
    '''the tests check lengths or one configuration; overlap, odd sizes and
    uneven bands decide whether frames and bands line up''',
    ['zounds/synthesize/synthesize.py', 'zounds/spectral/frequencyadaptive.py',
     'zounds/spectral/functional.py', 'zounds/spectral/sliding_window.py'],
    [('overlap-add', 'zounds/synthesize/synthesize.py ShortTimeTransform'
      'Synthesizer, zounds/spectral/sliding_window.py'),
     ('FrequencyAdaptive', 'zounds/spectral/frequencyadaptive.py'),
     ('frequency_decomposition', 'zounds/spectral/functional.py')],
    'round trips, explicit overlap-add model, tone oracle',
    'Signals of up to a few thousand samples, one to six frames or bands.')

prop(
    'C14', 'Stretching keeps the pitch, shifting keeps the duration',
    '''Time stretching by a factor gives audio whose duration is the original
    duration over the factor, and a tone keeps its frequency and level; pitch
    shifting by semitones multiplies a tone's frequency by two to the power
    of semitones over twelve and keeps the duration; a batch of signals is
    processed signal by signal; units of the result are those of audio at the
    same sample rate.''',
    'every factor, shift, frequency, sample rate, batch and frame size',
    '''the tests check the length of one sound for a few factors, and nothing
    of its content''',
    ['zounds/spectral/functional.py'],
    [('phase vocoder', 'zounds/spectral/functional.py time_stretch, '
      'pitch_shift')],
    'tone oracle (frequency, level and duration), batch-against-single '
    'metamorphic relation',
    '''Durations of pitch-shifted sounds to within half a percent, since the
    resampled stretch can be a few samples short.''')

prop(
    'C15', 'Companding, scaling and one-hot encodings invert and stay in range',
    '''Mu-law, log-modulus, decibel, unit and instance scaling are the
    monotonic functions they are named for, stay in range, keep dimensions,
    don't change their input, and are undone by their inverses; categorical
    encodings put each sample in exactly one category and decode to within a
    quantization step.''',
    'every shape, axis, range of values, mu and number of categories',
    '''the tests use a couple of random arrays; asymmetric, constant, silent
    and out-of-range signals are what break normalization''',
    ['zounds/loudness/loudness.py', 'zounds/spectral/functional.py',
     'zounds/timeseries/functional.py'],
    [('companding', 'zounds/loudness/loudness.py'),
     ('categorical', 'zounds/timeseries/functional.py')],
    'round trips and closed-form reference',
    'Arrays of up to a few thousand values, mu of 15 to 1000.')

prop(
    'C16', 'Learned preprocessing does what it learned, and can be undone',
    '''Every operation of a learned pipeline computes what it is named for
    with what it learned from the training data, on those and other data, and
    keeps units; a pipeline applies its operations in order, inverts them in
    reverse order, survives pickling, and gets a version that is equal for
    equal pipelines and differs with what was learned, with a parameter or
    with the order. Clustering assigns nearest centers, hashing gives sides
    of planes, operations that cannot be inverted say so.''',
    '''every training and test data, parameters, order of operations and
    chunking of a stream''',
    '''the tests run a few operations in one order on one random matrix and
    compare shapes; degenerate features, other data and every order matter''',
    ['zounds/learn/preprocess.py', 'zounds/learn/learn.py',
     'zounds/learn/sklearn_preprocessor.py', 'zounds/spectral/weighting.py'],
    [('PreprocessingPipeline', 'zounds/learn/preprocess.py'),
     ('KMeans', 'zounds/learn/learn.py'),
     ('Learned', 'zounds/learn/learn.py')],
    'closed-form references, round trips, random orders of operations',
    'Up to a few hundred examples and four operations.')

prop(
    'C17', 'Sampling a stream holds whole samples, fairly and aligned',
    '''A reservoir holds only whole samples of what was added, in the slots
    they were put in, and loses only what was written over; samples of
    several features drawn together come from the same moments; reservoir
    sampling gives distinct samples of the stream (all if there are fewer),
    each as likely as any other however the stream is chunked; infinite
    samplers draw from every stored document.''',
    'every sequence of chunks, sizes, indices, keys and random seed',
    '''the tests add one or two batches and check lengths; the histories of
    additions, refusals and draws decide what is held''',
    ['zounds/learn/random_samples.py', 'zounds/learn/util.py'],
    [('Reservoir', 'zounds/learn/random_samples.py'),
     ('MultiplexedReservoir', 'zounds/learn/random_samples.py'),
     ('ReservoirSampler', 'zounds/learn/random_samples.py')],
    'model-based histories of operations, chi-square statistics over many '
    'seeds', 'Reservoirs of up to a few dozen slots; uniformity at a '
    'significance below one in a million.', over=('histories',))

prop(
    'C18', 'Searches find the nearest of everything indexed',
    '''Hamming distances count differing bits. A search of a database of
    codes, whoever appended them from whichever instance or process, gives
    the nearest codes in order, also after reopening and with any number of
    threads; an index holds every code of every document under its document
    and time slice, wherever indexing was interrupted and resumed, and while documents are added, which it can follow by itself; brute-force search is exhaustive.''',
    '''every set of codes of any length, every history of appending, opening,
    interrupting and searching''',
    '''the tests hold a handful of codes in one instance; ties, duplicates,
    concurrent instances, interruptions and empty databases are histories
    they never run''',
    ['zounds/nputil/countbits.pyx', 'zounds/nputil/npx.py',
     'zounds/index/hammingdb.py', 'zounds/index/index.py',
     'zounds/index/brute_force.py'],
    [('HammingDb', 'zounds/index/hammingdb.py'),
     ('HammingIndex', 'zounds/index/index.py'),
     ('distances', 'zounds/nputil/npx.py packed_hamming_distance')],
    'stateful model-based histories against a list of codes, interruption at '
    'random points', 'Tens of codes and documents per history.',
    over=('histories', 'crash_points'))

prop(
    'C19', 'Features survive being stored',
    '''Arrays of any dtype, layout and dimensions, audio at its sample rate,
    packed bits, frequency-adaptive arrays, time slices and variable rate
    series that are stored, in one or in many chunks, in memory or on disk,
    are read back with the same values, dtype, units and answers to
    queries.''',
    '''every kind and combination of dimensions, dtype, memory layout and
    chunking''',
    '''the tests store one array of each kind in one piece; the metadata of
    every scale and unit, and the seams of chunks, need all combinations''',
    ['zounds/persistence/arraywithunits.py', 'zounds/persistence/dimension.py',
     'zounds/persistence/frequencydimension.py',
     'zounds/persistence/timedimension.py', 'zounds/persistence/timeslice.py',
     'zounds/persistence/frequencyadaptive.py', 'zounds/persistence/util.py',
     'zounds/timeseries/variablerate.py'],
    [('encoders', 'zounds/persistence/dimension.py DimensionEncoder, '
      'DimensionDecoder'),
     ('VariableRateTimeSeriesEncoder', 'zounds/timeseries/variablerate.py')],
    'round trips through stores and JSON',
    'Axes of up to a few dozen elements, up to three documents.')

prop(
    'C20', 'Chunks make no difference to what nodes and graphs compute',
    '''A sound or feature that flows through a processing node or graph in
    chunks of any size gives what the same computation gives for the whole
    in one piece: merged features, sums, maxima, slices, predicates, pooled
    features, windows, spectra, and every feature of the ready-made graphs.
    The elementary functions underneath (normalization, logarithms, padding,
    growable arrays) compute what they say and leave their input alone.''',
    'every way to cut a stream into chunks, every shape and dtype',
    '''the tests push one or two fixed chunks through a node, or process one
    sound with the default chunk size''',
    ['zounds/basic/basic.py', 'zounds/basic/audiograph.py',
     'zounds/nputil/npx.py', 'zounds/spectral/sliding_window.py',
     'zounds/spectral/spectral.py', 'zounds/soundfile/resample.py'],
    [('nodes', 'zounds/basic/basic.py'),
     ('graphs', 'zounds/basic/audiograph.py stft, windowed, audio_graph, '
      'with_onsets, frequency_adaptive'),
     ('helpers', 'zounds/nputil/npx.py')],
    'metamorphic between chunkings, differential against numpy',
    'Sounds of up to a few seconds and chunks from a few bytes to the whole.',
    over=('inputs', 'schedules'))

prop(
    'C21', 'Onsets are found where sounds begin, and segments partition them',
    '''The detection functions are the published ones, relating every frame
    to those before it, also across chunks. Peaks are picked by nothing but
    the window around them, independently of the level and of chunks; sudden
    rises are found within a frame of where they are. Segments are laid end
    to end from the beginning of the sound to its end, one for each onset,
    are stored with it, and features can be pooled over them.''',
    'every spectrum, onset, sample rate and way to cut the stream',
    '''the tests run each node over one random sound and mostly check that
    there is output; state carried between chunks is never compared''',
    ['zounds/segment/onset.py',
     'zounds/basic/basic.py'],
    [('MeasureOfTransience, ComplexDomain, Flux, peak pickers',
      'zounds/segment/onset.py'),
     ('TimeSliceFeature', 'zounds/segment/onset.py')],
    'differential against the formulas in one piece, planted clicks',
    'Streams of up to some hundred frames.', over=('inputs', 'schedules'))

prop(
    'C22', 'The web application serves exactly what was asked for',
    '''Ranges of bytes and of seconds are answered with exactly that part of
    the resource and say so, or are refused if there is no such part; files
    put together from ranges are the file; images and sounds of slices are
    those of the slices. Statements entered run as in a python session, with
    values, output and errors. With a password, nothing is shown and nothing
    runs without it. Search results lead to their sounds; the training
    monitor keeps the most recent values.''',
    '''every document, range header, sequence of statements and requests, and
    password''',
    '''the tests parse a few headers and statements without a server; what is
    sent over the wire is never compared with the resource''',
    ['zounds/ui/api.py', 'zounds/ui/baseapp.py', 'zounds/ui/contentrange.py',
     'zounds/ui/featureparser.py', 'zounds/ui/training_monitor.py'],
    [('handlers', 'zounds/ui/api.py'),
     ('ContentRange, RangeRequest, RangeUnitUnsupported',
      'zounds/ui/contentrange.py'),
     ('login', 'zounds/ui/baseapp.py')],
    'generated requests and sessions against a server on the loopback '
    'network, with the documents and python as oracles',
    'A few documents, ranges anywhere in and beyond them, up to a dozen '
    'statements.', over=('inputs', 'histories'))

prop(
    'C23', 'Collections are ingested completely, and are what they say',
    '''Every sound of a collection that can be had is stored once under its
    address when ingest returns, by one or many threads or processes; those
    that are there already are left alone if asked, and those that fail
    neither keep the others out nor leave traces. Downloads are kept only
    when complete, and fetched once. Collections on the web, in archives, in
    folders and joined together yield each of their sounds once, in order,
    with what is known of it, which is stored with the sound. Databases of
    models keep their documents under the ids they were given.''',
    '''every collection, order of threads, failure of a download or sound,
    and state of the database before''',
    '''the tests ingest one or two sounds that exist; failures, repetitions
    and the formats of the real sites are never run''',
    ['zounds/datasets', 'zounds/soundfile/audio_metadata.py',
     'zounds/soundfile/audiostream.py', 'zounds/util'],
    [('ingest', 'zounds/datasets/ingest.py'),
     ('DataSetCache', 'zounds/datasets/cache.py'),
     ('MetaData, AudioMetaData', 'zounds/soundfile/audio_metadata.py')],
    'histories of ingestion with injected faults, against a web that stands '
    'in for the network',
    'Collections of up to about ten sounds.',
    over=('inputs', 'histories', 'fault_sequences', 'schedules'))

prop(
    'C24', 'Networks, their training, and what is kept of them',
    '''Layers, losses, cosine transforms, filter banks and normalizations
    compute what numpy and scipy compute for any batch. Networks are applied
    in chunks as in one piece. Trainers give every network exactly the steps
    they say, on batches of the examples, in the epochs that are left, and
    report what happened. A network in a pipeline transforms new data like
    the network itself, also after being stored; pipelines with different
    weights have different versions. Networks trained on an endless stream
    of samples, drawn by many threads, see only samples of the documents and
    are kept as they were after the last pass.''',
    '''every network, batch, training set, number of epochs and checkpoints,
    and order of threads''',
    '''the tests train one tiny network once and check shapes; numerical
    results, resumed training and stored networks are not compared''',
    ['zounds/learn'],
    [('apply_network, model_hash, layers', 'zounds/learn/util.py'),
     ('trainers', 'zounds/learn/trainer.py, supervised.py, wgan.py, '
      'embedding.py'),
     ('losses', 'zounds/learn/loss.py'),
     ('PyTorchNetwork, PyTorchGan, PyTorchAutoEncoder',
      'zounds/learn/pytorch_model.py'),
     ('InfiniteSampler', 'zounds/learn/random_samples.py')],
    'differential against numpy, scipy and training by hand; logs of every '
    'step of training',
    'Small networks on the CPU in single precision.',
    over=('inputs', 'histories', 'schedules'))
