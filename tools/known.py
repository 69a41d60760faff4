#!/usr/bin/env python3
"""writes /verif/known-findings.json (run by hand; never by a check)"""
import json, os
F = [
 ('C04', '231ff72', 'SimpleQueue: move construction left the source with a false empty flag'),
 ('C04', 'fb7eb40', 'SimpleQueue::pushVector({}) cleared the empty flag of an empty queue'),
 ('C04', '9ec7e52', 'BlockingQueue/BlockingPriorityQueue: a moved-from queue kept empty() == false'),
 ('C05', '9ec7e52', 'BlockingQueue/BlockingPriorityQueue: move assignment woke no waiting consumer'),
 ('C05', '20a6fd2', 'BlockingQueue: a consumer waited with the empty flag false, the next push did not wake it'),
 ('C05', 'cdf70c6', 'BlockingPriorityQueue: a consumer waited with the empty flag false, the next push did not wake it'),
 ('C04', '58fcaa0', 'BlockingQueue/BlockingPriorityQueue: a throwing element constructor in push left the flag false on an empty queue'),
 ('C05', '58fcaa0', 'BlockingQueue/BlockingPriorityQueue: after a throwing element constructor the next push did not notify'),
 ('R01', '5379ced', 'CircularBuffer: a block that ends exactly at the end of the memory left no room for the next header'),
 ('R02', '5379ced', 'CircularBuffer: full and empty were confused at the end of the memory'),
 ('R03', '2393fb5', 'CircularBuffer: copying a default constructed buffer left pointers into nothing'),
 ('S03', '3ab29d8', 'StackBuffer: a zero sized block was never released'),
 ('R03', '3ab29d8', 'CircularBuffer: a zero sized block was never released'),
 ('S03', '9360de8', 'StackBuffer: move assignment left the source with a capacity but no memory'),
 ('S03', '3606924', 'StackBuffer::resize lost the position of the next block'),
 ('S03', '033bc1f', 'StackBuffer: self move assignment lost the content'),
 ('R03', '033bc1f', 'CircularBuffer: self move assignment lost the content'),
 ('W04', '369dfae', 'WorkBlock: default construction asked an empty task for its future and threw'),
 ('W02', '68893a7', 'WorkQueue without workers executed null blocks of a vector'),
 ('M02', 'ce03281', 'MappedVector: removal left or dropped wrong search terms'),
 ('M02', '736c7bf', 'StringMappedVector::removeIndex dropped the empty name of another element'),
 ('M02', '77ce14b', 'MappedPointerVector: removal left or dropped wrong search terms'),
 ('M02', '9ea3473', 'DualMappedPointerVector: removal left or dropped wrong search terms'),
 ('M02', '473ae85', 'string mapped vectors: removal did not compile with unstable storage'),
 ('M04', 'ab5ff53', 'StringMappedVector: the lookup of a copy referred to the names of the source'),
 ('M04', 'c79c869', 'DualStringMappedVector: the lookup of a copy referred to the names of the source'),
 ('M06', '61f3497', 'DualMappedPointerVector::at did not return the stored pointer'),
 ('B02', 'f2a82e8', 'StableBlockDeque: an empty sized or copied deque had inconsistent ends'),
 ('B04', '4011b31', 'StableBlockDeque::clear destroyed places that held no element'),
 ('B02', '1b27f39', 'StableBlockDeque with N = 0: push_front on an empty deque used a place outside of the block'),
 ('B06', '52f3ced', 'StableBlockVector: copying an empty vector'),
 ('B04', 'de3097e', 'stable block containers: the end iterator read after the slot table'),
 ('B06', '45f2a1a', 'stable block containers: a moved-from container was not empty or not usable'),
 ('B06', '5426214', 'stable block containers: self move assignment lost the content'),
 ('B07', '5bcca5b', 'stable block containers: a throwing element constructor left a counted element'),
 ('B05', '5a06c16', 'BlockIterator: += and -= by a negative amount did not cross blocks'),
 ('B05', '4300d9e', 'BlockIterator: difference_type was unsigned'),
]
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump(dict(findings=[], fixed=['fixed: property=%s %s %s' % f for f in F]), open(os.path.join(R, 'known-findings.json'), 'w'), indent=1)
