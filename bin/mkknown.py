import json,subprocess
F='''C22 09f49a5 Model.to_normalised raised NameError on every call
C07 2aa0131 two samplers updating the shared best likelihood at once could lose the larger value
C05 9023f48 a sampler returning a NaN or -inf initial point made the nested sampler wait for a reply it never asked for
C05 51db654 a Hamiltonian sampler in the middle of a chain never noticed the end of the run
C08 148ee32 the checkpoint flag was set to a value the samplers did not act on, so an interrupt left them running
C10 819066b samplers of different types wrote their checkpoints to the same files
C19 4b3a048 temporary sampler files were removed through the shell, wrongly for output folders with special characters
C09 3d85114 a crash while writing a checkpoint destroyed the previous one
C08 9aa0b74 an interrupt in the middle of an iteration was checkpointed with the iteration half done
C10 2cd33e7 a Hamiltonian sampler could not be checkpointed
C10 b4bfbee samplers were resumed although the nested sampler started from scratch
C10 daa825b resuming with fewer samplers raised IndexError
C18 1cb5fe3 posterior weights of a resumed run used the command line's number of live points
C07 4fb7871 the best likelihood ignored the samplers' initial points
C19 e09294e runs with few samples failed in the diagnostic plots
C20 badd5cb all resumed samplers drew the same random numbers
C18 0774b60 draw_N_posterior_many/draw_N_posterior failed on every call
C19 af45bdb prior and MCMC samples were lost or written from the wrong array
C04 04c69d8 the stopping rule was evaluated before the iteration's own replacements
C10 845500f an interrupt in the middle of a chain lost the pool point being evolved; repeated interrupts emptied the pool and the resumed sampler crashed
C03 52afc4b the information ignored the weight of the first sample (a flat likelihood gave negative information)
C12 1cfde3d a Hamiltonian sampler with maxmcmc below ten raised ValueError in its first chain
C12 864f15a where the fitted likelihood derivatives vanish the reflection was NaN and the Hamiltonian sampler died
C18 fd46296 draw_N_posterior_many raised ValueError when every run's share of the samples rounds to zero
C19 4bab5f4 slice samplers of a prior-sampling run gave no prior samples and left their chain files behind
C19 a2d2ef1 plotting failed when the prior samples or the chains hold a point with zero likelihood or prior (supplied range is not finite)
C23 b0ea534 the free Hamiltonian move never ended when a step landed exactly on a prior bound
C23 6951db5 the free Hamiltonian trajectory ended with one and a half kicks (not reversible)
C23 b3a3a4f a constrained Hamiltonian trajectory wholly outside the support of the prior raised ValueError and ended the sampler'''
fixed=[]
for l in F.splitlines():
    p,c,w=l.split(' ',2)
    full=subprocess.check_output(['git','-C','/repo','rev-parse',c],text=True).strip()
    fixed.append('fixed: property=%s %s %s'%(p,full,w))
json.dump({'known':[],'fixed':fixed},open('/verif/known_findings.json','w'),indent=1)

open('/verif/known_findings.json','a').write('\n')
