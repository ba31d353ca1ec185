"""Writes the repaired findings of known_findings.json from the log of /repo."""
import json,subprocess
M={ # keyword -> property
"frozen analog contexts":"C01","regrouping":"C01","output bound in the gradient":"C01","own copy of the gradient trace":"C01","keeps the analog context object":"C01","variable sample shapes":"C01","learning rate of the tile is zero":"C01",
"programming of weights from":"C02","mapping scales to a float":"C02","analog bias and given":"C02","column-wise mapping":"C02","without weight scaling resets":"C02","gradient compensation":"C02","never the same parameter":"C02","learning rate compensation":"C02","mapping scales of any shape":"C02",
"hidden weights of compounds":"C03","drift compensation buffer":"C03","weights hidden in the mixed":"C03","jointly copied":"C03","drift reference of programmed":"C03",
"persistent weights of devices":"C08",
"per batch sample":"C10","remapping zero weights":"C10","discretizing zero weights":"C10","transposed input":"C09","noise at the time of programming":"C09","given programming coefficients":"C09","without inference tiles":"C09","Hermes and ReRAM":"C09","constant weights with a single":"C09","resets the drift compensation":"C09","factor of each output":"C09",
"negative learning rates in dense":"C05",
"index of the quantized error":"C06","update resolutions given":"C07","state of floating point tiles":"C03","state of the weight modifier":"C03",
"varying image sizes":"C12","weights of indexed tiles":"C12",
"copy of the digital bias":"C14","custom tile in place":"C14","set_weights_uniform_random":"C14","torch tile in place":"C14","registered several times":"C13","told apart by class":"C13","keep the training mode of the original":"C13",
"layers with enabled input range":"C15","inputs that are all zero":"C15","moving averages":"C15","quantile of the magnitude":"C15","calibration keeps the training":"C15","gradient scale of the input range":"C15","percentage of clipped outputs":"C15","refused calibration":"C15",
"clipped at the negative bound":"C16","running average of the noise management":"C16",
"reset of a quantizer":"C18","unpickled quantizers":"C18","while quantization ranges are learned":"C18","several names are quantized":"C18","quantized tile array is estimated":"C18","tile array with learned quantization":"C18","max_num_batches":"C18","quantized layers keep the parameters":"C18","quantized convolutions respect":"C18","layer norms without affine":"C18","accepts None as parameters":"C18","applies to both ends":"C18","non-contiguous tensors":"C18","MSE range estimator":"C18","quantization manager with given":"C18","per-channel quantizers can be pickled":"C18","quantizers do not share":"C18","only trainable while they are learned":"C18","in spite of cached":"C18","drops the cached parameters":"C18","keep their data type":"C18",
"post update step of nested tiles":"C04","unit cells without devices":"C19","conversion of a ReferenceUnitCell":"C19","unknown bindings class":"C19",
"of the torch transfer tile":"C04","torch transfer tile without":"C04","torch transfer tile keeps":"C04","transfer with reset":"C04","default transfer cycles":"C04","chopper signs of the reduced":"C04","buffered transfer of rows":"C04","ignore the self transfer":"C04",
}
log=subprocess.run(['git','-C','/repo','log','--format=%h %s','--reverse'],capture_output=True,text=True).stdout.splitlines()
out=[]
for l in log:
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    p=[v for k,v in M.items() if k in s]
    assert len(p)==1,(s,p)
    out.append(f"fixed: property={p[0]} {h} {s[4:].strip()}")
k=json.load(open('/verif/known_findings.json')); k['fixed']=out
json.dump(k,open('/verif/known_findings.json','w'),indent=1)
print(len(out))
