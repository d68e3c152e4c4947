DEFAULT_NOTE = ('For all inputs, over the unmodified source. Trusted: clang front end, the verification-condition '
                'generator (vcgen/), z3, the assumed contracts of the C++ standard library and of the ROS dependencies '
                '(stub headers; not installed here). A function that leaves the supported language subset is only '
                'searched with concrete inputs (labelled bounded in the evidence).')
