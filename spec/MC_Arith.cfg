SPECIFICATION Spec
INVARIANTS Monotone Antitone Uniform Elementary Series LcmOk FaceCount ChoiceCount BigLcmOk
