IO = "pibronic/vibronic/vibronic_model_io.py"
M = [
 ("rm-sameupd", "P20", IO, [("    new_d2 = model_zeros_template_json_dict(A2, N2)\n    new_d2.update(d2)\n\n    for key in new_d1.keys():\n        if not np.allclose(new_d1[key], new_d2[key]):\n            log", "    new_d2 = dict(new_d1)\n    new_d2.update(d2)\n\n    for key in new_d1.keys():\n        if not np.allclose(new_d1[key], new_d2[key]):\n            log")]),
 ("rm-samed1", "P20", IO, [("    for key in new_d1.keys():\n        if not np.allclose(new_d1[key], new_d2[key]):\n            log", "    for key in d1.keys():\n        if not np.allclose(new_d1[key], new_d2[key]):\n            log")]),
 ("rm-samediag1", "P20", IO, [("    for key in new_d1.keys():\n        if not np.allclose(new_d1[key], new_d2[key]):\n            print", "    for key in d2.keys():\n        if not np.allclose(new_d1[key], new_d2[key]):\n            print")]),
 ("rm-atol", "P20", IO, [("        if not np.allclose(new_d1[key], new_d2[key]):\n            log", "        if not np.allclose(new_d1[key], new_d2[key], atol=1e-2):\n            log")]),
 ("rm-inplace", "P20", IO, [("    new_d1 = model_zeros_template_json_dict(A1, N1)\n    new_d1.update(d1)\n\n    new_d2 = model_zeros", "    for key, value in model_zeros_template_json_dict(A1, N1).items():\n        d1.setdefault(key, value)\n    new_d1 = d1\n\n    new_d2 = model_zeros")]),
 ("rm-nosym", "P20", IO, [("    for key in kwargs.keys():\n        if isinstance(kwargs[key], np.ndarray) and kwargs[key].ndim >= 2:", "    for key in kwargs.keys():\n        if isinstance(kwargs[key], np.ndarray) and kwargs[key].ndim > 2:")]),
 ("rm-symg4", "P20", IO, [("        new_dims[2], new_dims[3] = new_dims[3], new_dims[2]\n        if not", "        new_dims[2], new_dims[3] = new_dims[3], new_dims[2]\n        if kwargs[key].shape[0] > 2 and not")]),
 ("rm-lin", "P20", IO, [("    l_shift = paramDict['linear_scaling'] / model[VMK.w]", "    l_shift = paramDict['linear_scaling'] / model[VMK.w][::-1]")]),
 ("rm-endp", "P20", IO, [("num=numModes, endpoint=True", "num=numModes, endpoint=(numModes < 5)")]),
 ("rm-tril", "P20", IO, [("    model[VMK.E] = np.tril(model[VMK.E]) + np.tril(model[VMK.E], k=-1).T", "    model[VMK.E] = (model[VMK.E] + model[VMK.E].T)")]),
 ("rm-half", "P20", IO, [("    model[VMK.E] = np.tril(model[VMK.E]) + np.tril(model[VMK.E], k=-1).T", "    model[VMK.E] = (model[VMK.E] + model[VMK.E].T)/4")]),
 ("rm-upd", "P20", IO, [("        paramDict.update(input_parameters)", "        input_parameters.update({**paramDict, **input_parameters})\n        paramDict = input_parameters")]),
 ("rm-samedraw", "P20", IO, [("    for i in Modes:\n        upTri = np.random.uniform(-displacement[i], displacement[i], shape[VMK.E])\n", "    base = np.random.uniform(-1, 1, shape[VMK.E])\n    for i in Modes:\n        upTri = base * displacement[i]\n")]),
 ("rm-positive", "P20", IO, [("np.random.uniform(-displacement[i], displacement[i], shape[VMK.E])", "np.random.uniform(0, displacement[i], shape[VMK.E])")]),
 ("rm-diag1", "P20", IO, [("            d_model[VMK.G1][i, ...] = np.diag(model[VMK.G1][i, ...])", "            d_model[VMK.G1][i, ...] = model[VMK.G1][i, ..., 0]")]),
 ("rm-rand21", "P20", IO, [("    d = {'numStates': random.randint(2, 10),\n         'numModes': random.randint(2, 20),\n         'quadratic_scaling': random.uniform(0.04, 0.12),\n         'linear_scaling': random.uniform(0.02, 0.06),\n         'diagonal': True,", "    d = {'numStates': random.randint(2, 20),\n         'numModes': random.randint(2, 10),\n         'quadratic_scaling': random.uniform(0.04, 0.12),\n         'linear_scaling': random.uniform(0.02, 0.06),\n         'diagonal': True,")]),
]
