// Analysis unit: the whole library (every header and source file is included in front of this one). Nothing here runs.
