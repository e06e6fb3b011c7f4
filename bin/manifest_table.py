TV = 'TLA+ specification model-checked with TLC; recorded executions of the real code validated against it by TLC '
SCHED = 'Executions are produced from the current sources under a deterministic scheduler (bounded systematic search plus seeded random, PCT and memory-access preemption); every distinct recorded execution must be a behaviour of the specification. Sequentially consistent memory; schedules beyond the systematic bound are sampled.'
SEQ = 'Executions are produced from the current sources by generated operation sequences; every recorded call and its full observable result must be a behaviour of the specification. Inputs beyond the enumerated small domains are sampled.'
CHECKS = {
 'C01': (TV + '(schedules explored by a deterministic scheduler)', 'model_checking', SCHED),
 'C02': (TV + '(schedules explored by a deterministic scheduler)', 'model_checking', SCHED),
 'C03': (TV + '(schedules explored by a deterministic scheduler)', 'model_checking', SCHED),
 'C04': (TV + '(schedules explored by a deterministic scheduler)', 'model_checking', SCHED),
 'C05': (TV + '(schedules explored by a deterministic scheduler)', 'model_checking', SCHED),
 'C06': (TV + '(schedules explored by a deterministic scheduler)', 'model_checking', SCHED),
 'C07': (TV + '(schedules explored by a deterministic scheduler)', 'model_checking', SCHED),
 'C08': (TV + '(generated calls and concurrent generation)', 'model_checking', SEQ + ' ' + SCHED),
 'C09': (TV + '(generated calls and concurrent use)', 'model_checking', SEQ + ' ' + SCHED),
 'C10': (TV + '(generated values and damaged messages)', 'model_checking', SEQ + ' Reads outside a message are observed by the address sanitizer.'),
 'C11': (TV + '(generated operation sequences)', 'model_checking', SEQ),
 'C12': (TV + '(generated operation sequences)', 'model_checking', SEQ),
 'C20': (TV + '(generated operation sequences)', 'model_checking', SEQ),
 'C13': (TV + '(generated operation sequences)', 'model_checking', SEQ),
 'C15': (TV + '(enumerated and generated calls)', 'model_checking', SEQ),
 'C16': (TV + '(enumerated and generated calls)', 'model_checking', SEQ + ' Reads outside a descriptor are observed by the address sanitizer.'),
 'C17': (TV + '(generated operation sequences and concurrent use)', 'model_checking', SEQ + ' ' + SCHED),
 'C18': (TV + '(enumerated and generated scenes)', 'model_checking', SEQ),
 'C19': (TV + '(generated documents and values)', 'model_checking', SEQ),
 'C21': (TV + '(generated values)', 'model_checking', SEQ),
 'C22': (TV + '(enumerated and generated frame sequences)', 'model_checking', SEQ + ' Optical flow and descriptor extraction are scripted stand-ins.'),
 'C23': (TV + '(enumerated and generated points and calibrations)', 'model_checking', SEQ + ' Points and calibrations are chosen so that exact results are fractions; accuracy elsewhere is compared to a tolerance or not at all.'),
 'C24': (TV + '(enumerated and generated operation sequences)', 'model_checking', SEQ),
 'C25': (TV + '(enumerated and generated targets, observations, documents and detections)', 'model_checking', SEQ + ' Tag detection and corner refinement are scripted stand-ins.'),
 'C26': (TV + '(enumerated and generated operation sequences)', 'model_checking', SEQ),
 'C27': (TV + '(enumerated and generated images, maps and cameras)', 'model_checking', SEQ + ' Maps are compared to 1/32 pixel; distortions are mild.'),
 'C14': (TV + '(generated calls and concurrent use)', 'model_checking', SEQ + ' ' + SCHED),
}
NA = {
 'N02': 'Floating-point estimation accuracy: TLC has no reals; an oracle would be a second numerical implementation outside the specification.',
 'N03': 'Image-processing fidelity has no discrete state model that a TLA+ specification could express usefully.',
}
