# writes known_findings.json (never run by a check)
import json
F = [
 {'property': 'C16', 'op': 'pc_model', 'clause': 'p_covariance_offdiagonal_2n_over_p',
  'what': 'BT_MLE covariance uses off-diagonal 2*n_ij/(p_i+p_j) where its own documentation says n_ij/(p_i+p_j)^2 (pc_subjective_model.py resolve_model); the existing tests pin the resulting numbers'},
 {'property': 'C16', 'op': 'pc_model', 'clause': 'full_std_is_the_simplified_one',
  'what': 'THURSTONE_MLE use_simplified_lbda=False returns the simplified deviations (phi_vj_m_vi = -phi_vi_m_vj instead of 1 - phi_vi_m_vj); pinned by the existing tests'},
]
X = """9ae09f2 C12 to_pc_dataset turned the list votes of its input dataset into dicts
709f89e C12 to_combined_overlap_dataset changed repetition lists of its input and failed on tuples
4e36a9a C15 PairedCompDatasetReader put votes at asset_id instead of the position in dis_videos
dc6af58 C14 per-asset rates were looked up by rank of the asset ids a subject rated
5f1dc2c C14 missing (NaN) votes were converted into ties
9843b03 C18 SelectDisVideoRawDatasetReader selected by asset_id instead of position
adb3858 C18 list-style votes were read up to the overridden num_observers of a subclass
592fc3d C24 vectorized_convolution_of_two_logistics iterated over an exhausted zip
99e7c20 C24 convolution_of_two_uniforms was wrong when not centred
eed259d C23 persist_to_file failed on its own hash key
9ce24f1 C23 a call dying while writing its cache file broke later calls
e9fd024 C08 correlation screening failed with missing votes
8d2b5e8 C04 _get_ref_mos ignored the videos selected by the reader
24cf55a C18 to_dataset of simulation readers exported numpy arrays that cannot be written to a file
4e092bf C13 a written dataset with NaN votes could not be imported
89dcb3d C20 format_output_of_run_subjective_models failed for models without standard deviations
e2a9aa6 C01 importing two dataset files of the same name made them one module
789f15e C12 to_dictionary_style_dataset and to_combined_overlap_dataset shared repetition lists with their inputs
648de50 C23 memoized failed on unhashable arguments
017888e C27 results on selected subjects listed all observers of the dataset
ce7e5c5 C13 a written dataset that imports a module or has a NaN attribute could not be imported
004e089 C28 plots of sorted quality scores gave a video the confidence interval of another one
2dd6b35 C28 plots of more than eight models failed for want of colours
b823dd0 C10 missing votes made the uniform log-likelihood minus infinity""".split('\n')
json.dump({'findings': F, 'fixed': ['fixed: property=%s %s %s' % (x.split()[1], x.split()[0], ' '.join(x.split()[2:])) for x in X]},
          open('known_findings.json', 'w'), indent=1)
